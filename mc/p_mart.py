"""C19 variants, C20 histories of objects, C21 stretch tensor input, C22 twinning equation, C23 twin table,
C24 rank-one connections, C25 volume fractions and habit planes, C26 compatibility test, C27 cofactor parameters"""
import itertools
import math

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard, Violation
from .p_lattice import rot, ref_group, key
from .p_hnf import P3

R = np.array


def sym(*v):
    """symmetric matrix from 6 numbers: diagonal, then 12, 13, 23"""
    a, b, c, d, e, f = v
    return R([[a, d, e], [d, b, f], [e, f, c]], dtype=float)


def stretch_grid(tier):
    g = []
    q = tier == 'quick'
    dia = (.9, .95, 1.03, 1.1) if q else (.88, .9, .95, 1., 1.03, 1.1, 1.17)
    for a, b, c in itertools.product(dia, repeat=3):
        g.append(np.diag([a, b, c]))
    for a, d, c in itertools.product((.95, 1.02), (.01, .05), (.9, 1.1)):
        g += [sym(a, a, c, d, 0, 0), sym(c, a, a, 0, 0, d), sym(a, c, a, 0, -d, 0)]
    for a, d, b, c in itertools.product((.95, 1.02), (.01, .05), (.97, 1.05), (.9, 1.1)):
        g.append(sym(a, b, c, d, 0, 0))
    for a, d, b, c in itertools.product((.95, 1.02), (.01, .05), (.03, -.02), (.9, 1.1)):
        g.append(sym(a, a, c, d, b, b))
    for a, d in itertools.product((.95, 1.02), (.01, .05)):
        g.append(sym(a, a, a, d, d, d))
    g.append(sym(1.01, .97, 1.04, .02, .03, .05))
    g.append(sym(.98, 1.05, .93, -.03, .02, .04))
    # well known alloys: NiTi, CuAlNi (orthorhombic), NiMnGa-like
    g.append(sym(1.0243, 1.0243, .9563, .058, -.0427, -.0427))
    g.append(sym(1.0425, 1.0425, .9178, .0194, 0, 0))
    g.append(sym(1.042, 1.042, .918, .02, 0, 0))
    g.append(np.diag([1.013, 1.013, .952]))
    if not q:
        for v in itertools.product((.94, 1.03), (.97, 1.06), (.92,), (.01, .04), (-.02, .03), (.05, -.01)):
            g.append(sym(*v))
    # volume fractions close to 0 and 1
    for e in (.0006, .002, .008) if q else (.0003, .0006, .001, .002, .004, .008, .016):
        g += [np.diag([.94, 1 + e, 1 + e]), np.diag([1 - e, 1.07, 1 - e]), np.diag([.95, 1 + e, 1.04])]
    # compatible ones: middle eigenvalue exactly 1
    for a, b in itertools.product((.9, .97), (1.04, 1.1)):
        g.append(np.diag([a, 1., b]))
        for ax, an in (((0, 0, 1), 45.), ((1, 1, 1), 20.), ((1, 2, -1), 33.)):
            Q = rot(ax, an)
            g.append(symmetrise(Q.dot(np.diag([a, 1., b])).dot(Q.T)))
    return g


def symmetrise(U):
    return (U + U.T) / 2


GROUP_OF = {1: 'cubic', 2: 'cubic', 3: 'cubic', 4: 'hex', 6: 'tetragonal', 7: 'tetragonal', 8: 'ortho', 9: 'ortho', 10: 'ortho', 11: 'ortho', 12: 'mono', 13: 'mono', 14: 'triclinic'}


def rotations_of(U):
    """the rotations that map the lattice U Z^3 to itself"""
    return [U.dot(M).dot(la.inv(U)) for M in O.automorphisms(U) if O.idet(M.tolist()) == 1]


def contains(G, Q, tol=1e-6):
    return any(np.abs(Q - g).max() < tol for g in G)


def cubic24():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3), dtype=int)
            for i in range(3):
                M[i, p[i]] = s[i]
            if O.idet(M.tolist()) == 1:
                out.append(M)
    return out


# -------------------------------------------------------------------------- C19
def c19_units(tier):
    g = stretch_grid(tier)
    us = []
    for part in range(8):
        us.append(dict(part=part, parts=8, ids=[1, 4, 5, 6, 8, 12, 14] if tier == 'quick' else list(range(1, 15))))
    return us


def check_variants(rec, m, U, G):
    """m: Martensite, G: list of rotations; the variants against the orbit"""
    vs = R(rec.call(m.getvariants))
    orbit = []
    where = []
    for i, Q in enumerate(G):
        V = Q.dot(U).dot(Q.T)
        for k, W in enumerate(orbit):
            if np.abs(V - W).max() < 1e-7:
                where[k].append(i)
                break
        else:
            orbit.append(V)
            where.append([i])
    rec.require(vs.ndim == 3 and vs.shape[1:] == (3, 3), 'the variants are not a list of 3x3 matrices', shape=vs.shape)
    rec.require(len(vs) == len(orbit), 'wrong number of variants', got=len(vs), want=len(orbit))
    rec.require(np.array_equal(vs[0], U), 'the first variant is not the given stretch tensor')
    perm = []
    for V in vs:
        ks = [k for k, W in enumerate(orbit) if np.abs(V - W).max() < 1e-9]
        rec.require(len(ks) == 1, 'a matrix that is not a symmetry-related stretch tensor', V=V)
        rec.require(ks[0] not in perm, 'a variant is listed twice', V=V)
        perm.append(ks[0])
    for n in range(1, len(vs) + 1):
        rec.require(np.array_equal(rec.call(m.getvariant, n), vs[n - 1]), 'variant number %d is another one' % n)
    idx = rec.call(m.getLaueidx)
    rec.require(len(idx) == len(vs), 'the symmetry elements are not listed per variant')
    for n in range(len(vs)):
        rec.require(sorted(int(x) for x in idx[n]) == where[perm[n]], 'the symmetry elements that lead to variant %d are others' % (n + 1), got=idx[n], want=where[perm[n]])
    return vs


def c19_explore(rec, u):
    Mart = mod('').Martensite
    MG = mod('crystallography').MatrixGroup
    grid = stretch_grid('quick')
    # transformations with little strain
    grid += [np.eye(3) + e * (U - np.eye(3)) / np.abs(U - np.eye(3)).max() for U in grid[::5] for e in (.003, .0005)]
    for n, U in list(enumerate(grid))[u['part']::u['parts']]:
        sy = rotations_of(U)
        for i in u['ids']:
            m = rec.call(rec.call(Mart, U).setLaue, i)
            G = rec.call(m.getLaue).matrices()
            rec.ctx = dict(U=U.tolist(), laue=i)
            rec.require(len(G) == {1: 24, 2: 24, 3: 24, 4: 12, 5: 6, 6: 8, 7: 8, 8: 4, 9: 4, 10: 4, 11: 4, 12: 2, 13: 2, 14: 1}[i], 'the Laue group of Bravais type %d has the wrong order' % i, got=len(G))
            want = all(contains(G, Q) for Q in sy)
            # symmetry elements outside the library's catalogue of axes are not decided
            if not all(contains(cubic24(), Q) for Q in sy):
                rec.state((key(U), i, 'skip'))
                continue
            rev = rec.call(m.isreversible)
            rec.require(bool(rev) == want, 'reversibility is wrong', got=rev, want=want)
            if want:
                vs = check_variants(rec, m, U, [R(g, dtype=float) for g in G])
                # every variant generates the same set
                if i in (1, 4) and n % 5 == 0:
                    for V in vs:
                        ws = R(rec.call(rec.call(Mart, symmetrise(V), m.getLaue()).getvariants))
                        rec.require(len(ws) == len(vs) and all(any(np.abs(W - X).max() < 1e-9 for X in vs) for W in ws), 'a variant generates other variants', V=V)
                        rec.trace(outcome=len(ws))
            else:
                rec.refuses(AttributeError, rec.call(lambda: m.getvariants))
                rec.refuses(AttributeError, m.getvariant, 1)
                rec.refuses(AttributeError, m.getLaueidx)
            rec.state((key(U), i))
            rec.trace(sample=rec.ctx, outcome=(i, want, len(vs) if want else 0))
        # default group, and a group given in another order of elements
        m = rec.call(Mart, U)
        if rec.call(m.isreversible):
            vs = check_variants(rec, m, U, [R(g, dtype=float) for g in m.getLaue().matrices()])
            G = cubic24()
            check_variants(rec, rec.call(Mart, U, MG(R(G))), U, [g.astype(float) for g in G])
            check_variants(rec, rec.call(rec.call(Mart, U).setLaue, MG(R(G[::-1]))), U, [g.astype(float) for g in G[::-1]])
            rec.trace(outcome=len(vs))
    m = rec.call(Mart)
    for f in (m.getU, m.getvariants, m.isreversible, m.getLaueidx):
        rec.refuses(AttributeError, f)


register('C19', dict(quick='about 210 stretch tensors of all symmetries, strains down to 0.0005, x 7 Laue groups, the default group and the cubic group in other orders', thorough='x 14 Bravais types'),
         c19_units, c19_explore, ['variants closer than 1e-5 are not in the space', 'reversibility is decided where all symmetry axes of U are cubic ones'])


# -------------------------------------------------------------------------- C20
UA, UB = np.diag([.9, .95, 1.1]), sym(1.02, 1.02, .9, .05, 0, 0)


def c20_units(tier):
    q = tier == 'quick'
    us = [dict(kind='martensite', first=a, depth=3 if q else 4) for a in range(len(MOPS))]
    us += [dict(kind='twin', pair=k, depth=2 if q else 3, first=f) for k in range(5) for f in range(len(TACC))]
    us += [dict(kind='lattice', n=n, depth=3 if q else 4, first=f) for n in range(4) for f in range(len(LACC))]
    us += [dict(kind='aliases')]
    return us


def expect(U, G):
    """(variants as sorted keys) of the model"""
    out = {}
    for Q in G:
        out[key(Q.dot(U).dot(Q.T))] = 1
    return tuple(sorted(out))


def _grp(i):
    return [R(Q, dtype=float) for Q in mod('').Martensite().setLaue(i).getLaue().matrices()]


# operations on (object, model); the model is (U, laue id)
def _mutate_input(st):
    st['input'] *= 1.5


MOPS = ['variants', 'spoil variants', 'spoil U', 'spoil input', 'variant 1 spoiled', 'laue 1', 'laue 8', 'setU A', 'setU B', 'spoil index', 'calc']


def c20_step(rec, op, st):
    m = st['obj']
    if op == 'variants':
        rec.call(m.getvariants)
    elif op == 'spoil variants':
        v = rec.call(m.getvariants)
        v[:] = 5.
    elif op == 'spoil U':
        v = rec.call(m.getU)
        v *= 2
    elif op == 'spoil input':
        if st['input'].flags.writeable:
            st['input'] *= 1.5
    elif op == 'variant 1 spoiled':
        v = rec.call(m.getvariant, 1)
        v[:] = 7.
    elif op in ('laue 1', 'laue 8'):
        i = int(op[5:])
        st['old'].append((m, st['U'], st['laue']))
        st['obj'] = rec.call(m.setLaue, i)
        st['laue'] = i
    elif op in ('setU A', 'setU B'):
        U = (UA if op[-1] == 'A' else UB).copy()
        st['old'].append((m, st['U'], st['laue']))
        st['obj'] = rec.call(m.setU, U)
        st['input'], st['U'] = U, (UA if op[-1] == 'A' else UB)
    elif op == 'spoil index':
        v = rec.call(m.getLaueidx)
        v[:] = 0
    else:
        rec.call(m.calcvariants)


def c20_check(rec, m, U, laue, want, nidx):
    rec.require(np.array_equal(rec.call(m.getU), U), 'the stretch tensor changed', got=m.getU())
    vs = R(rec.call(m.getvariants))
    rec.require(tuple(sorted(key(v) for v in vs)) == want, 'the variants changed')
    rec.require(np.array_equal(vs[0], U), 'the first variant changed')
    rec.require(rec.call(m.getLaue).order() == {1: 24, 8: 4}[laue], 'the Laue group changed')
    idx = rec.call(m.getLaueidx)
    rec.require(sorted(int(x) for r in idx for x in r) == list(range({1: 24, 8: 4}[laue])), 'the list of symmetry elements changed')


def c20_explore(rec, u):
    Mart = mod('').Martensite
    if u['kind'] == 'martensite':
        groups = {1: _grp(1), 8: _grp(8)}
        want = {(n, i): expect(U, groups[i]) for n, U in (('A', UA), ('B', UB)) for i in (1, 8) if not (n == 'B' and i == 8)}
        nm = lambda U: 'A' if U is UA else 'B'
        for rest in itertools.product(range(len(MOPS)), repeat=u['depth'] - 1):
            seq = [MOPS[k] for k in (u['first'],) + rest]
            inp = UA.copy()
            st = dict(obj=rec.call(Mart, inp), input=inp, U=UA, laue=1, old=[])
            ok = True
            # UB is not reversible in the orthorhombic group: such prefixes are not explored
            U, i = 'A', 1
            for op in seq:
                if op.startswith('laue'):
                    i = int(op[5:])
                elif op.startswith('setU'):
                    U = op[-1]
                if (U, i) == ('B', 8):
                    ok = False
            if not ok:
                continue
            rec.ctx = dict(history=seq)
            for k, op in enumerate(seq):
                c20_step(rec, op, st)
                rec.state(tuple(seq[:k + 1]))
            for m, U, i in st['old'] + [(st['obj'], st['U'], st['laue'])]:
                c20_check(rec, m, U, i, want[nm(U), i], None)
            rec.trace(sample=rec.ctx, outcome=(nm(st['U']), st['laue']))
    elif u['kind'] == 'twin':
        TP = mod('marttrans.twin').TwinPair
        Ui, Uj = TPAIRS[u['pair']]
        ref = {}
        for k in range(len(TACC)):
            ref[k] = observe(TACC[k], TP(Ui.copy(), Uj.copy()))
        for rest in itertools.product(range(len(TACC)), repeat=u['depth'] - 1):
            seq = (u['first'],) + rest
            a, b = Ui.copy(), Uj.copy()
            tp = rec.call(TP, a, b)
            a *= 3
            b[:] = 0
            rec.ctx = dict(pair=u['pair'], history=[TACC[k] for k in seq])
            for n, k in enumerate(seq):
                got = rec.call(observe, TACC[k], tp)
                rec.require(same(got, ref[k]), 'the answer of "%s" depends on what was asked before' % TACC[k], got=got, alone=ref[k])
                rec.state((u['pair'],) + seq[:n + 1])
            rec.trace(sample=rec.ctx, outcome=seq)
    elif u['kind'] == 'lattice':
        make = LMAKE[u['n']]
        ref = {k: observe_lat(LACC[k], make()[0]) for k in range(len(LACC))}
        for rest in itertools.product(range(len(LACC)), repeat=u['depth'] - 1):
            seq = (u['first'],) + rest
            lat, inputs = rec.call(make)
            for x in inputs:
                x *= 3
            rec.ctx = dict(lattice=u['n'], history=[LACC[k] for k in seq])
            for n, k in enumerate(seq):
                got = rec.call(observe_lat, LACC[k], lat)
                rec.require(same(got, ref[k]), 'the answer of "%s" depends on what was asked before' % LACC[k], got=got, alone=ref[k])
                rec.state((u['n'],) + seq[:n + 1])
            rec.trace(sample=rec.ctx, outcome=seq)
    else:
        c20_aliases(rec)


TPAIRS = [
    (np.diag([.9, .95, 1.1]), np.diag([.95, .9, 1.1])),                                   # compound
    (sym(1.02, 1.02, .9, .05, 0, 0), sym(1.02, .9, 1.02, 0, .05, 0)),                     # type I/II
    (np.diag([.95, .95, 1.08]), np.diag([1.08, .95, .95])),                               # tetragonal
    (np.diag([.9, 1., 1.1]), np.diag([1., .9, 1.1])),
    (sym(1.0243, 1.0243, .9563, .058, -.0427, -.0427), sym(1.0243, 1.0243, .9563, .058, .0427, .0427)),
]
TACC = ['Ui', 'Uj', 'istwinnable', 'conventional cubic', 'conventional triclinic', 'conventional default', 'ax', 'iscompound', 'istypeI', 'istypeII', 'XI', 'XII',
        'direct_cof', 'twinparam', 'compatible I', 'compatible II', 'compatible', 'volumefrac', 'habit I', 'habit II', 'habit']


def observe(what, tp):
    MG = mod('crystallography').MatrixGroup
    try:
        if what in ('Ui', 'Uj'):
            v = getattr(tp, what)()
            r = v.copy()
            v[:] = 9.          # the answer belongs to the caller
        elif what == 'conventional cubic':
            r = tp.isconventional(MG(R(cubic24())))
        elif what == 'conventional triclinic':
            r = tp.isconventional(MG([np.eye(3)]))
        elif what == 'conventional default':
            r = tp.isconventional()
        elif what.startswith('compatible'):
            r = tp.iscompatible(*what.split()[1:])
        elif what.startswith('habit'):
            r = tp.habitplanes(*what.split()[1:])
        else:
            r = getattr(tp, what)()
        a = ('value', flat(r))
        spoil(r)                  # the answer belongs to the caller
        return a
    except (AttributeError, ValueError) as e:
        return ('refused', type(e).__name__)


def spoil(r):
    if isinstance(r, np.ndarray):
        r[...] = 7
    elif isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
        if isinstance(r, list):
            del r[:]


LACC = ['base', 'dimension', 'Laue_group', 'point_group', 'special_lattice_group', 'lattice_group', 'inpointgroup', 'inlatticegroup', 'equal', 'conventional_trans', 'lat_param',
        'conventional_base', 'Bravais_id', 'miller', 'str']


def _mk(i, dim=3):
    def make():
        from .p_hnf import P2
        p = R((P3 if dim == 3 else P2)[i], dtype=float)
        return mod('').BravaisLattice(i, p, dim=dim), [p]
    return make


def _mk0():
    E = R([[1., .5, 0], [0, math.sqrt(3) / 2, 0], [0, 0, 1.6]])
    return mod('').Lattice(E), [E]


LMAKE = [_mk(2), _mk(4), _mk(3, 2), _mk0]


def observe_lat(what, lat):
    if not hasattr(lat, what) and what not in ('equal', 'miller', 'str'):
        return ('absent',)
    n = lat.dimension()
    if what.endswith('_group'):
        g = getattr(lat, what)()
        ms = g.matrices()
        r = sorted(key(m) for m in ms)
        for m in ms:
            m[:] = 3           # the answer belongs to the caller
        return ('value', flat(r))
    if what == 'inpointgroup':
        r = [lat.inpointgroup(Q) for Q in (np.eye(n), -np.eye(n), np.eye(n)[::-1])]
    elif what == 'inlatticegroup':
        r = [lat.inlatticegroup(Q) for Q in (np.eye(n), -np.eye(n), np.eye(n)[::-1])]
    elif what == 'equal':
        L = mod('').Lattice
        E = lat.base()
        r = [lat == L(E), lat == L(E * 2), L(E * .5) == lat]
    elif what == 'miller':
        if not hasattr(lat, 'to_primitive_Miller'):
            return ('absent',)
        r = [lat.to_primitive_Miller([1] * n), lat.to_conventional_Miller([1] * n)]
    elif what == 'str':
        return ('value', str(lat))
    else:
        v = getattr(lat, what)()
        r = np.array(v)
        if isinstance(v, np.ndarray):
            v[:] = 4           # the answer belongs to the caller
    return ('value', flat(r))


def flat(r):
    if r is None:
        return None
    if isinstance(r, (list, tuple)):
        return [flat(x) for x in r]
    if isinstance(r, np.ndarray):
        return r.tolist()
    if isinstance(r, np.generic):
        return r.item()
    return r


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None or b is None:
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def c20_aliases(rec):
    """no call changes its arguments; what is handed in or out is not shared"""
    Mart, L, BL = mod('').Martensite, mod('').Lattice, mod('').BravaisLattice
    MG = mod('crystallography').MatrixGroup
    TS, TP = mod('').TwinSystem, mod('marttrans.twin').TwinPair
    for U in (UA, UB):
        G = [R(Q, dtype=float) for Q in cubic24()]
        vs = R(rec.call(Mart(U).getvariants))
        # twin system from an array or a Martensite
        arr = vs.copy()
        ts = rec.call(TS, arr)
        table = R(rec.call(ts.TwinTable))
        arr[:] = 1.
        rec.require(np.array_equal(rec.call(ts.Ulist), vs), 'the twin system shares its variants with the caller')
        ul = rec.call(ts.Ulist)
        ul[:] = 2.
        rec.require(np.array_equal(rec.call(ts.Ulist), vs), 'the twin system hands out its own variants')
        for k, tp in enumerate(rec.call(ts.getTwinpairs)):
            rec.require(np.array_equal(rec.call(tp.Ui), vs[table[k][0]]) and np.array_equal(rec.call(tp.Uj), vs[table[k][1]]), 'the pairs do not correspond to the table')
            rec.state((key(U), k))
        # answers belong to the caller
        n = len(table)
        spoil(rec.call(ts.getTwinpairs))
        spoil(rec.call(ts.TwinTable))
        for f in ('getConventional', 'getCompound', 'getTypeI', 'getTypeII'):
            r = rec.call(getattr(ts, f))
            first = flat(r)
            spoil(r)
            rec.require(flat(rec.call(getattr(ts, f))) == first, 'the twin system hands out its own indices', what=f)
        rec.require(np.array_equal(R(rec.call(ts.TwinTable)), table) and len(rec.call(ts.getTwinpairs)) == n, 'the twin system hands out its own table or pairs')
        rec.trace(outcome=len(table))
        # lazily evaluated after the input was changed
        arr = vs.copy()
        ts = rec.call(TS, arr)
        arr[:] = 1.
        rec.require(np.array_equal(R(rec.call(ts.TwinTable)), table), 'the twin table depends on what the caller does with its array')
        # groups
        src = R(G)
        g = rec.call(MG, src)
        src[:] = 0
        rec.require(g.order() == 24 and all(np.array_equal(a, b) for a, b in zip(g.matrices(), G)), 'a group shares its matrices with the caller')
        rec.trace(outcome='group')
    # the module-wide groups survive
    cg = mod('crystallography').CUBIC_LAUE_GROUP
    before = sorted(key(m) for m in cg.matrices())
    for m in cg.matrices():
        m[:] = 0
    rec.call(Mart(UA).getvariants)
    rec.require(sorted(key(m) for m in cg.matrices()) == before == sorted(key(m) for m in cubic24()), 'the cubic group was changed')
    rec.trace(outcome='cubic')


register('C20', dict(quick='all histories of 3 out of 11 operations on a transformation object (incl. spoiling every array handed in or out); all ordered pairs of 21 questions to 5 twin pairs; all ordered triples of 15 questions to 4 lattices',
                     thorough='histories of 4, triples of questions, quadruples of questions'), c20_units, c20_explore,
         ['reference: the answer of a fresh object'])


# -------------------------------------------------------------------------- C21
def c21_units(tier):
    return [dict(part=k) for k in range(4)]


def c21_explore(rec, u):
    Mart = mod('').Martensite
    m0 = rec.call(Mart)
    vals = (.9, 1, 1.05, 2)
    offs = (0, .03, -.2, .5)
    if u['part'] == 0:
        def good(U, *args):
            rec.ctx = dict(args=[a.tolist() if isinstance(a, np.ndarray) else a for a in args])
            U = R(U, dtype=float)
            posdef = U[0, 0] > 0 and la.det(U[:2, :2]) > 1e-12 and la.det(U) > 1e-12
            if posdef:
                m = rec.call(m0.setU, *args)
                rec.require(np.array_equal(R(rec.call(m.getU), dtype=float), U), 'the numbers are put in other places', got=m.getU(), want=U)
                rec.require(m is not m0, 'not a new object')
            elif la.eigvalsh(U)[0] < -1e-9:
                rec.refuses(TypeError, m0.setU, *args)
            rec.state(str(rec.ctx))
            rec.trace(sample=rec.ctx, outcome=posdef)
        for a in vals + (-1., -.3):
            good(np.eye(3) * a, a)
            for c in vals + (-1.,):
                good(np.diag([a, a, c]), a, c)
                for d in offs + (2.5,):
                    good([[a, d, 0], [d, a, 0], [0, 0, c]], a, d, c)
                    for b in vals:
                        good([[a, d, 0], [d, b, 0], [0, 0, c]], a, d, b, c)
        rec.refuses(AttributeError, m0.getU)
    elif u['part'] == 1:
        for v in itertools.product((.9, 1.1, -.5), (1., 2.), (.8, -1.), (0, .2), (0, -.3), (.1, 1.5)):
            U = sym(*v)
            w = la.eigvalsh(U)
            if abs(w[0]) < 1e-6:
                continue
            for form in (U, U.tolist(), R(U, order='F')):
                rec.ctx = dict(U=U.tolist())
                if w[0] > 0:
                    m = rec.call(m0.setU, form)
                    rec.require(np.array_equal(R(m.getU()), U), 'another stretch tensor is kept')
                else:
                    rec.refuses(TypeError, m0.setU, form)
                rec.trace(outcome=w[0] > 0)
            rec.state(key(U))
            # asymmetric in each off-diagonal place
            for i, j in ((0, 1), (0, 2), (1, 2)):
                X = U.copy()
                X[i, j] += .01
                rec.ctx = dict(U=X.tolist())
                rec.refuses(TypeError, m0.setU, X)
                rec.refuses(TypeError, m0.setU, X.tolist())
                rec.state(key(X))
                rec.trace(outcome='asymmetric')
        I = np.array([[2, 1, 0], [1, 2, 0], [0, 0, 1]])
        rec.require(np.array_equal(rec.call(rec.call(m0.setU, I).getU), I), 'integer tensor')
    elif u['part'] == 2:
        for bad in ((), (1., 1., 1., 1., 1.), (1.,) * 6, (1.,) * 9, ([1., 2., 3.],), (np.ones(3),), (np.eye(2),), (np.eye(4),), ([[1., 0, 0], [0, 1., 0]],), (np.ones((3, 3, 3)),), (0,), (0, 1.), (0., 0., 0.),
                    ([[0.] * 3] * 3,), ([],), ([[]],)):
            rec.ctx = repr(bad)
            rec.refuses(TypeError, m0.setU, *bad)
            rec.state(repr(bad))
            rec.trace()
        m = rec.call(Mart, UA)
        for bad in (0, -1, 15, 100, 'x', None, 1.5, [1], np.eye(3)):
            rec.ctx = repr(bad)
            rec.refuses(ValueError, m.setLaue, bad)
            rec.require(m.getLaue().order() == 24, 'a refused group was kept')
            rec.state(('laue', repr(bad)))
            rec.trace()
        for i in range(1, 15):
            x = rec.call(m.setLaue, i)
            rec.ctx = dict(laue=i)
            rec.require(is_laue(x.getLaue(), i), 'the Laue group is not that of the Bravais type', order=x.getLaue().order())
            rec.require(x is not m and m.getLaue().order() == 24 and np.array_equal(x.getU(), UA), 'setting the group is not a new object with the same stretch tensor')
            rec.require(rec.call(rec.call(Mart).setLaue, i).getLaue().order() == x.getLaue().order(), 'the group depends on the stretch tensor')
            # stretch tensor set afterwards keeps the group
            y = rec.call(x.setU, .9, .95)
            rec.require(y.getLaue().order() == x.getLaue().order() and np.array_equal(x.getU(), UA), 'setting the stretch tensor loses the group, or changes the old object')
            rec.state(('laue', i))
            rec.trace(outcome=x.getLaue().order())
    else:
        TP = mod('marttrans.twin').TwinPair
        good = UA
        for bad in (np.eye(2), np.ones((3, 3)), np.diag([1., 1., -1.]), np.diag([-1., -1., 1.]), R([[1., .1, 0], [0, 1., 0], [0, 0, 1.]]), np.zeros((3, 3)), np.diag([1., 0., 1.])):
            for a, b in ((good, bad), (bad, good), (bad, bad)):
                rec.ctx = dict(Ui=a.tolist(), Uj=b.tolist())
                rec.refuses(ValueError, TP, a, b)
                rec.state((key(a), key(b)))
                rec.trace()
        rec.call(TP, good, UB)
        TS = mod('marttrans.twin').TwinSystem
        us = rec.call(rec.call(Mart, UA).getvariants)
        for bad in (None, 'cubic', 1, 1.5, [np.eye(3)], np.eye(3), np.array([np.eye(3)]), Mart(UA), ()):
            rec.ctx = dict(laue=repr(bad))
            rec.refuses(ValueError, TS, us, bad)
            rec.state(('twin system', repr(bad)[:40]))
            rec.trace()
        for i in range(1, 15):
            g = rec.call(rec.call(Mart, UA).setLaue, i).getLaue()
            rec.require(is_laue(rec.call(rec.call(TS, us, g).Laue), i), 'a twin system has another Laue group', laue=i)
        rec.require(is_laue(rec.call(rec.call(TS, us).Laue), 1), 'the default Laue group is not the cubic one')
        rec.require(is_laue(rec.call(rec.call(TS, Mart(UA).setLaue(4)).Laue), 4), 'a twin system of a martensite has another Laue group')
        f = opt('util.utils', 'pos_def_sym')
        if f is not None:
            for v in itertools.product((-1., 1., 2.), (-1., 1.), (-2., 1.), (0, .5), (0, 1.5), (.2,)):
                U = sym(*v)
                w = la.eigvalsh(U)[0]
                if abs(w) > 1e-6:
                    rec.require(bool(rec.call(f, U)) == (w > 0), 'positive definiteness is wrong', U=U)
                rec.require(not rec.call(f, U + R([[0, .01, 0], [0] * 3, [0] * 3])), 'an asymmetric matrix passes')
                rec.state(('pds', v))
                rec.trace(outcome=w > 0)


register('C21', 'one to four numbers on a grid incl. indefinite ones, matrices of every sign pattern as array and list, each asymmetry, wrong shapes and counts, all 14 Laue groups and wrong ones',
         c21_units, c21_explore, ['tensors with an eigenvalue within 1e-9 of zero are not decided'])


# -------------------------------------------------------------------------- twins: oracle
def polar_u(F):
    C = F.T.dot(F)
    w, V = la.eigh(C)
    return (V * np.sqrt(w)).dot(V.T)


def middle(Ui, Uj):
    iu = la.inv(Ui)
    return la.eigvalsh(symmetrise(iu.dot(Uj).dot(Uj).dot(iu)))[1]


def twofold_axes(Ui, Uj, tol=1e-7):
    """unit axes e (up to sign) of all 180 degree rotations that take Ui to Uj; None when it is a continuum"""
    w, V = la.eigh(Ui)
    w2, W = la.eigh(Uj)
    if np.abs(w - w2).max() > tol:
        return []
    gaps = (w[1] - w[0] > 1e-5, w[2] - w[1] > 1e-5)
    cand = []
    if all(gaps):
        for s in itertools.product((1, -1), repeat=3):
            Q = (W * s).dot(V.T)
            if la.det(Q) > 0 and abs(np.trace(Q) + 1) < 1e-6:
                l, X = la.eigh(symmetrise(Q))
                cand.append(X[:, 2])
    elif any(gaps):
        k = 0 if gaps[0] else 2
        v, x = V[:, k], W[:, k]
        if abs(abs(v.dot(x)) - 1) < 1e-9:
            return None
        cand = [(v + x) / la.norm(v + x), (v - x) / la.norm(v - x)]
    else:
        return None
    out = []
    for e in cand:
        Q = 2 * np.outer(e, e) - np.eye(3)
        if np.abs(Q.dot(Ui).dot(Q.T) - Uj).max() < tol and not any(abs(abs(e.dot(f)) - 1) < 1e-6 for f in out):
            out.append(e)
    return out


def twin_units(tier):
    return [dict(part=k, parts=16, tier=tier, laue=l) for l in (['cubic'] if tier == 'quick' else ['cubic', 'tetragonal']) for k in range(16)] + [dict(part=k, parts=4, tier='quick', laue='hex') for k in range(4)]


def laue_matrices(name):
    """own construction of the rotation groups"""
    if name == 'cubic':
        return [Q.astype(float) for Q in cubic24()]
    if name == 'tetragonal':
        return [Q.astype(float) for Q in cubic24() if abs(Q[2, 2]) == 1]
    if name == 'hex':
        out = [rot((0, 0, 1), 60. * k) for k in range(6)]
        return out + [Q.dot(np.diag([1., -1., -1.])) for Q in out]
    if name == 'trigonal':
        return [Q.astype(float) for Q in cubic24() if abs(Q.sum()) == 3]
    if name == 'orthorhombic':
        return [Q.astype(float) for Q in cubic24() if np.abs(np.diag(Q)).sum() == 3]
    if name == 'monoclinic':
        return [np.eye(3), np.diag([-1., 1., -1.])]
    if name == 'triclinic':
        return [np.eye(3)]
    raise KeyError(name)


# the crystal system of the 14 Bravais types
SYSTEM = dict(enumerate(['cubic'] * 3 + ['hex', 'trigonal'] + ['tetragonal'] * 2 + ['orthorhombic'] * 4 + ['monoclinic'] * 2 + ['triclinic'], 1))


def is_laue(group, i):
    """is it the rotation group of Bravais type i in standard axes?"""
    return sorted(key(q) for q in group.matrices()) == sorted(key(q) for q in laue_matrices(SYSTEM[i]))



def systems(rec, u):
    """all twin systems of the shard: (U, group, TwinSystem)"""
    Mart, TS, MG = mod('').Martensite, mod('').TwinSystem, mod('crystallography').MatrixGroup
    G = laue_matrices(u['laue'])
    grid = stretch_grid(u['tier'])
    if u['laue'] == 'hex':
        grid = [np.diag([.95, 1.02, 1.05]), np.diag([.93, 1., 1.06]), sym(.95, 1.01, 1.04, .02, 0, 0), sym(.95, 1.01, 1.04, 0, .02, 0), sym(.95, 1.01, 1.04, 0, 0, .02), np.diag([1.05, .97, 1.]),
                np.diag([1.03, .94, 1.02])]
    for U in grid[u['part']::u['parts']]:
        rec.ctx = dict(U=U.tolist(), laue=u['laue'])
        m = rec.call(Mart, U, MG(R(G)))
        if not rec.call(m.isreversible):
            continue
        if u['laue'] == 'cubic':
            ts = rec.call(TS, rec.call(Mart, U))
        else:
            ts = rec.call(TS, m)
        yield U, G, ts


def exact_pair(Ui, Uj):
    return abs(middle(Ui, Uj) - 1) < 1e-9 and np.abs(Ui - Uj).max() > 1e-6


# -------------------------------------------------------------------------- C22
def check_twin(rec, Ui, Uj, sols):
    rec.require(len(sols) == 2, 'two solutions expected', n=len(sols))
    dyads = []
    for Q, a, n in sols:
        Q, a, n = R(Q), R(a), R(n)
        rec.require(np.isrealobj(Q) and np.isrealobj(a) and np.isrealobj(n), 'complex solution')
        rec.require(np.abs(Q.dot(Uj) - Ui - np.outer(a, n)).max() < 1e-8, 'the solution does not satisfy the twinning equation', Q=Q, a=a, n=n)
        rec.require(np.abs(Q.dot(Q.T) - np.eye(3)).max() < 5e-9 and la.det(Q) > 0, 'Q is not a rotation', Q=Q)
        rec.require(abs(la.norm(n) - 1) < 1e-9, 'the twin plane normal is not a unit vector', n=n)
        dyads.append(np.outer(a, n))
    rec.require(np.abs(dyads[0] - dyads[1]).max() > 1e-9, 'the two solutions are the same')
    return dyads


def c22_units(tier):
    return twin_units(tier) + [dict(kind='made', part=k, parts=8) for k in range(8)]


def c22_explore(rec, u):
    if u.get('kind') == 'made':
        # pairs that are not variants of one another: Uj from Ui + a x n
        TP = mod('marttrans.twin').TwinPair
        amps = [R(a) * s for a in ((1., 0, 0), (0, 1., .5), (1., -1., 1.), (.3, .2, -.9)) for s in (.02, .11, 1e-3, 3e-5)]
        norms = [R(n) / la.norm(n) for n in ((0, 0, 1.), (1., 1., 0), (1., -1., 2.), (.2, 1., .1))]
        bases = [np.eye(3), np.diag([.95, 1.02, 1.1]), sym(.98, 1.05, .93, -.03, .02, .04), np.diag([.9, 1., 1.1]), np.diag([.95, .95, 1.1])]
        cases = list(itertools.product(bases, amps, norms))
        # both tensors share an axis
        flat = [R(v) for v in ((1., 0, 0), (0, 0, 1.), (1., 0, 1.), (1., 0, -1.), (2., 0, -1.))]
        cases += list(itertools.product(bases[:2] + [np.diag([.3, 1., 2.]), np.diag([1.6, .9, .4])], [v * s / la.norm(v) for v in flat for s in (.08, -.3, .7)], [v / la.norm(v) for v in flat]))
        for Ui, a, n in cases[u['part']::u['parts']]:
            if 1 + a.dot(la.inv(Ui)).dot(n) < .05:
                continue
            F = Ui + np.outer(a, n)
            Uj = polar_u(F)
            if abs(middle(Ui, Uj) - 1) > 1e-9 or np.abs(Ui - Uj).max() < 1e-6:
                continue
            rec.ctx = dict(Ui=Ui.tolist(), a=a.tolist(), n=n.tolist())
            tp = rec.call(TP, Ui, Uj)
            rec.require(rec.call(tp.istwinnable), 'a rank-one connected pair is not twinnable')
            sols = rec.call(tp.twinparam)
            try:
                dy = check_twin(rec, Ui, Uj, sols)
            except Violation as v:
                # double root: the two solutions coincide when an extreme eigenvalue is 1 too
                iu = la.inv(Ui)
                w = la.eigvalsh(symmetrise(iu.dot(Uj).dot(Uj).dot(iu)))
                if 'the same' in v.msg and (abs(w[0] - 1) < 1e-6 or abs(w[2] - 1) < 1e-6):
                    dy = [np.outer(s[1], s[2]) for s in sols]
                else:
                    raise
            rec.require(any(np.abs(d - np.outer(a, n)).max() < 1e-6 for d in dy), 'the known twin is not among the solutions', got=dy, want=np.outer(a, n))
            if twofold_axes(Ui, Uj, 1e-4) == []:
                rec.require(list(rec.call(tp.ax)) == [], 'an axis of a rotation that does not relate the two tensors', got=tp.ax())
            # an axis of a rotation that relates them is given exactly
            for e in rec.call(tp.ax):
                Q = 2 * np.outer(e, e) - np.eye(3)
                rec.require(np.abs(Q.dot(Ui).dot(Q) - Uj).max() < 1e-5, 'the 180 degree rotation about the axis does not relate the two tensors', axis=e)
            rec.state((key(Ui), key(a), key(n)))
            rec.trace(sample=rec.ctx, outcome=key(Uj))
            # stretched: no longer connected
            Uk = polar_u(Uj.dot(np.diag([1.05, 1.05, 1.05])))
            if abs(middle(Ui, Uk) - 1) > 1e-2:
                tq = rec.call(TP, Ui, Uk)
                rec.require(not rec.call(tq.istwinnable), 'an incompatible pair is twinnable')
                for f in (tq.twinparam, tq.ax):
                    rec.refuses(AttributeError, f)
                rec.trace(outcome='incompatible')
            ti = rec.call(TP, Ui, Ui.copy())
            rec.require(not rec.call(ti.istwinnable), 'a variant is twinned with itself')
        return
    for U, G, ts in systems(rec, u):
        for n, tp in enumerate(rec.call(ts.getTwinpairs)):
            Ui, Uj = rec.call(tp.Ui), rec.call(tp.Uj)
            rec.ctx = dict(U=U.tolist(), laue=u['laue'], Ui=Ui.tolist(), Uj=Uj.tolist())
            if not exact_pair(Ui, Uj):
                continue
            sols = rec.call(tp.twinparam)
            check_twin(rec, Ui, Uj, sols)
            ax = twofold_axes(Ui, Uj)
            if ax is not None and len(ax) == 1:
                # type I: the twin plane is normal to the axis; type II: the shear is along its image
                e = ax[0]
                par = lambda x, y: la.norm(np.cross(x, y)) < 1e-6 * la.norm(x) * la.norm(y)
                rec.require(any(par(n, e) for _, a, n in sols), 'no solution has the twin axis as plane normal (type I)', axis=e)
                rec.require(any(par(a, Ui.dot(e)) for _, a, n in sols), 'no solution shears along the twin axis (type II)', axis=e)
                rec.require(par(sols[0][2], e) and par(sols[1][1], Ui.dot(e)), 'type I is not first and type II second', axis=e)
            rec.state((key(Ui), key(Uj)))
            rec.trace(sample=rec.ctx, outcome=key(sols[0][1]))


register('C22', dict(quick='every twinnable pair of variants of about 150 stretch tensors (cubic) and 7 (hexagonal); 160 constructed rank-one connected pairs and their detuned counterparts', thorough='about 460 stretch tensors, cubic and tetragonal parent'),
         c22_units, c22_explore, ['pairs twinnable only within the library tolerance 5e-3 (not exactly) are not required to satisfy the equation with an exact rotation'])


# -------------------------------------------------------------------------- C23
def c23_explore(rec, u):
    for U, G, ts in systems(rec, u):
        vs = R(rec.call(ts.Ulist))
        N = len(vs)
        mids = {(i, j): middle(vs[i], vs[j]) for i in range(N) for j in range(i + 1, N)}
        table = [tuple(int(x) for x in r) for r in rec.call(ts.TwinTable)]
        rec.require(len(set(table)) == len(table), 'a pair is listed twice', table=table)
        for (i, j), mv in mids.items():
            rec.ctx = dict(U=U.tolist(), laue=u['laue'], pair=(i, j), middle=mv)
            if abs(abs(mv - 1) - 5e-3) < 1e-6:
                continue
            rec.require(((i, j) in table) == (abs(mv - 1) < 5e-3), 'the table %s a pair' % ('misses' if abs(mv - 1) < 5e-3 else 'contains'), table=table)
            rec.state((key(U), i, j))
        rec.require(all(0 <= i < j < N for i, j in table), 'indices out of order', table=table)
        pairs = rec.call(ts.getTwinpairs)
        rec.require(len(pairs) == len(table), 'pairs and table do not correspond')
        lists = {k: [int(x) for x in rec.call(getattr(ts, k))] for k in ('getConventional', 'getCompound', 'getTypeI', 'getTypeII')}
        two = [Q for Q in G if abs(np.trace(Q) + 1) < 1e-6]
        for k, (i, j) in enumerate(table):
            rec.ctx = dict(U=U.tolist(), laue=u['laue'], pair=(i, j))
            tp = pairs[k]
            rec.require(np.array_equal(tp.Ui(), vs[i]) and np.array_equal(tp.Uj(), vs[j]), 'pairs and table are in different order')
            conv = any(np.abs(Q.dot(vs[i]).dot(Q.T) - vs[j]).max() < 1e-8 for Q in two)
            rec.require((k in lists['getConventional']) == conv, 'conventional twins: %s' % ('missing' if conv else 'extra'), table=table[k])
            ax = twofold_axes(vs[i], vs[j])
            rec.require((k in lists['getCompound']) != (k in lists['getTypeI']), 'a pair is both compound and type I/II, or neither')
            rec.require((k in lists['getTypeI']) == (k in lists['getTypeII']), 'type I and type II twins come together')
            if ax is not None and exact_pair(vs[i], vs[j]):
                rec.require((k in lists['getCompound']) == (len(ax) > 1), 'compound twin wrongly %s' % ('missed' if len(ax) > 1 else 'reported'), axes=ax)
                got = [R(e) for e in rec.call(tp.ax)]
                rec.require(len(got) == len(ax), 'wrong number of twin axes', got=got, want=ax)
                for e in ax:
                    rec.require(any(abs(abs(e.dot(g)) - la.norm(g)) < 1e-6 for g in got), 'a twin axis is missing', axis=e)
            rec.trace(sample=rec.ctx, outcome=(conv, None if ax is None else len(ax)))
        for l in lists.values():
            rec.require(l == sorted(set(l)) and all(0 <= x < len(table) for x in l), 'a list of twins is not a list of distinct indices', got=l)


register('C23', dict(quick='all pairs of variants of about 150 stretch tensors (cubic) and 7 (hexagonal)', thorough='about 460 stretch tensors, cubic and tetragonal'), twin_units, c23_explore,
         ['pairs within 1e-6 of the tolerance 5e-3 for twinnability are not decided', 'oracle: all 180 degree rotations between the two tensors from their eigenvectors'])


# -------------------------------------------------------------------------- C24
def c24_units(tier):
    return [dict(part=k, parts=8, deep=tier != 'quick') for k in range(8)]


def c24_explore(rec, u):
    solve = opt('util', 'solve_rank1')
    am = mod('').AM_Solver
    am2 = opt('marttrans.twin', '_solve_am')
    step = (-1., 0., 1.) if not u['deep'] else (-1., -.4, 0., 1.)
    dirs = [R(v) / la.norm(v) for v in itertools.product(step, repeat=3) if any(v) and [x for x in v if x][0] > 0] + [R([.3, -.7, .2]), R([.1, .2, .97])]
    dirs = [d / la.norm(d) for d in dirs]
    for m, d, s in list(itertools.product(dirs, dirs, (2e-4, .05, -.3, .6) if not u['deep'] else (2e-4, .01, .05, -.3, .6, 1.5)))[u['part']::u['parts']]:
        b = d * s
        if 1 + b.dot(m) < 1e-3:
            continue
        F = np.eye(3) + np.outer(b, m)
        C = symmetrise(F.T.dot(F))
        w = la.eigvalsh(C)
        rec.ctx = dict(b=b.tolist(), m=m.tolist())
        # the numerical eigenvalues that should be 1 may fall on the wrong side of 1
        edge = w[0] > 1 - 1e-9 or w[2] < 1 + 1e-9
        fs = []
        if solve is not None:
            fs.append(('solve_rank1', lambda: [(x[0], x[1]) for x in solve(C)]))
        if am2 is not None:
            fs.append(('twin', lambda: [(x[1], x[2]) for x in am2(C)]))
        fs.append(('AM_Solver', lambda: [(x[0], x[1]) for x in am(C)]))
        for nm, f in fs:
            sols = [(R(x), R(y)) for x, y in rec.call(f)]
            tol = 1e-7 if not edge else 1e-5
            rec.require(len(sols) == 2, nm + ': two solutions expected', n=len(sols))
            for x, y in sols:
                H = np.eye(3) + np.outer(x, y)
                rec.require(np.isrealobj(x) and np.isrealobj(y) and np.abs(H.T.dot(H) - C).max() < tol, nm + ': the solution does not satisfy the equation', b=x, m=y)
                rec.require(abs(la.norm(y) - 1) < 1e-9, nm + ': the normal is not a unit vector', m=y)
                rec.require(la.det(H) > 0, nm + ': the solution reverses orientation')
            rec.require(any(np.abs(np.outer(x, y) - np.outer(b, m)).max() < 10 * tol for x, y in sols), nm + ': the known solution is not found', got=sols)
            if not edge:
                rec.require(np.abs(np.outer(*sols[0]) - np.outer(*sols[1])).max() > 1e-9, nm + ': both solutions are the same')
            rec.trace(sample=rec.ctx, outcome=key(C))
        rec.state((key(b), key(m)))
        # no solution: middle eigenvalue is not 1
        if not edge:
            wv, V = la.eigh(C)
            for mid in (.5 * (wv[0] + 1), .5 * (1 + wv[2])):
                if abs(mid - 1) > 1e-3:
                    X = symmetrise((V * R([wv[0], mid, wv[2]])).dot(V.T))
                    rec.require(rec.call(am, X) is None, 'AM_Solver: a solution for an incompatible tensor', C=X)
                    rec.trace(outcome='none')
    if u['part'] == 0:
        for bad in (np.diag([1., 1., -1.]), R([[1., .1, 0], [0, 1., 0], [0, 0, 1.]]), np.diag([-1., -1., 1.]), np.eye(2), np.ones((3, 3))[:2], np.diag([1., 1.1, 0])):
            rec.ctx = bad.tolist()
            if solve is not None:
                rec.refuses(TypeError, solve, bad)
            rec.state(key(bad))
            rec.trace()
        CE = opt('marttrans.Compatibility', 'CompatibilityError') or Exception
        for bad in (R([[1., .1, 0], [0, 1., 0], [0, 0, 1.]]), np.eye(4)):
            rec.refuses(CE, am, bad)


register('C24', dict(quick='all C = (I + m b)(I + b m) for 15 x 15 directions and 3 amplitudes, three solvers, and their detuned counterparts', thorough='42 x 42 directions and 5 amplitudes'),
         c24_units, c24_explore)


# -------------------------------------------------------------------------- C25
def roots01(U, a, n):
    """the f in [0,1] with det((U + f a n)^T (U + f a n) - I) = 0 and 1 the middle eigenvalue; (list, decided)"""
    g = lambda f: la.det((U + f * np.outer(a, n)).T.dot(U + f * np.outer(a, n)) - np.eye(3))
    g0, gh, g1 = g(0.), g(.5), g(1.)
    # quadratic through three points
    A = 2 * (g0 + g1 - 2 * gh)
    B = g1 - g0 - A
    Cc = g0
    scale = max(abs(g0), abs(gh), abs(g1))
    if scale < 1e-12:
        return [0.], False
    if abs(A) < 1e-9 * scale + 1e-13:
        return [], abs(B) < 1e-9 and scale > 1e-9
    disc = B * B - 4 * A * Cc
    if abs(disc) < 1e-7 * A * A:
        return [], False
    if disc < 0:
        return [], True
    rs = [(-B - math.sqrt(disc)) / (2 * A), (-B + math.sqrt(disc)) / (2 * A)]
    if any(abs(r) < 1e-5 or abs(r - 1) < 1e-5 for r in rs):
        return [], False
    rs = sorted(r for r in rs if 0 < r < 1)
    ok = []
    for r in rs:
        w = la.eigvalsh((U + r * np.outer(a, n)).T.dot(U + r * np.outer(a, n)))
        if abs(w[1] - 1) < 1e-8:
            ok.append(r)
        elif abs(w[1] - 1) < 1e-4:
            return [], False
    return ok, True


def c25_explore(rec, u):
    for U, G, ts in systems(rec, u):
        for k, tp in enumerate(rec.call(ts.getTwinpairs)):
            Ui, Uj = tp.Ui(), tp.Uj()
            if not exact_pair(Ui, Uj):
                continue
            rec.ctx = dict(U=U.tolist(), laue=u['laue'], Ui=Ui.tolist(), Uj=Uj.tolist())
            sols = rec.call(tp.twinparam)
            fs = rec.call(tp.volumefrac)
            rec.require(len(fs) == 2, 'one volume fraction per twin solution expected')
            hab = {}
            for i, (Q, a, n) in enumerate(sols):
                rs, decided = roots01(Ui, a, n)
                f = fs[i]
                if decided:
                    rec.require((f is not None) == bool(rs), 'volume fraction %s although %s' % (f, 'there is one' if rs else 'there is none'), want=rs, type=i)
                    if rs:
                        rec.require(any(abs(f - r) < 1e-6 for r in rs), 'wrong volume fraction', got=f, want=rs)
                if f is not None:
                    rec.require(0 <= f <= 1, 'volume fraction outside [0, 1]', got=f)
                    for x in (f, 1 - f):
                        X = Ui + x * np.outer(a, n)
                        w = la.eigvalsh(X.T.dot(X))
                        rec.require(abs(w[1] - 1) < 2e-5, 'the laminate is not compatible with the austenite', f=x, eigenvalues=w)
                rec.trace(sample=rec.ctx, outcome=(None if f is None else round(f, 6)))
            comp = {'I': fs[0] is not None, 'II': fs[1] is not None}
            comp['C'] = comp['I'] or comp['II']
            for t in ('I', 'II', 'C', None):
                args = () if t is None else (t,)
                c = comp[t or 'C']
                rec.require(bool(rec.call(tp.iscompatible, *args)) == c, 'compatibility of type %s contradicts the volume fractions' % t, fs=fs)
                if not c:
                    rec.refuses(AttributeError, tp.habitplanes, *args)
                    continue
                hps = rec.call(tp.habitplanes, *args)
                todo = []
                for i in (0, 1):
                    if fs[i] is not None and (t or 'C') in (('I', 'C'), ('II', 'C'))[i]:
                        for x in (fs[i], 1 - fs[i]):
                            X = Ui + x * np.outer(sols[i][1], sols[i][2])
                            todo += [X.T.dot(X)] * 2
                rec.require(len(hps) == len(todo), 'wrong number of habit planes', got=len(hps), want=len(todo), type=t)
                used = set()
                for Rm, b, m in hps:
                    Rm, b, m = R(Rm), R(b), R(m)
                    H = np.eye(3) + np.outer(b, m)
                    rec.require(abs(la.norm(m) - 1) < 1e-7, 'the habit plane normal is not a unit vector')
                    rec.require(np.isrealobj(Rm) and np.abs(Rm.dot(Rm.T) - np.eye(3)).max() < 1e-4 and la.det(Rm) > 0, 'the orientation is not a rotation', R=Rm)
                    err = [np.abs(H.T.dot(H) - C).max() if q not in used else 9. for q, C in enumerate(todo)]
                    q = int(np.argmin(err))
                    rec.require(err[q] < 5e-5, 'a habit plane does not belong to any of the laminates', err=min(err), b=b, m=m)
                    used.add(q)
                    w, V = la.eigh(todo[q])
                    rec.require(np.abs(Rm.dot((V * np.sqrt(w)).dot(V.T)) - H).max() < 1e-4, 'austenite and laminate are not connected by this rotation')
                rec.trace(outcome=(t, len(hps)))
            for bad in ('X', 'i', '', 'III') if k < 2 else ():
                rec.refuses(ValueError, tp.iscompatible, bad)
                rec.refuses(ValueError, tp.habitplanes, bad)
            rec.state((key(Ui), key(Uj)))


register('C25', dict(quick='every exactly twinnable pair of variants of about 150 stretch tensors (cubic) and 7 (hexagonal), three twin types', thorough='about 460 stretch tensors, cubic and tetragonal'), twin_units, c25_explore,
         ['fractions within 1e-5 of 0 or 1 and double roots are not decided', 'accuracy 2e-5, the tolerance of the library for a middle eigenvalue of 1'])


# -------------------------------------------------------------------------- C26
def c26_units(tier):
    return [dict(part=k, parts=8, deep=tier != 'quick') for k in range(8)]


def c26_explore(rec, u):
    f = mod('').isCompatible
    dirs = [R(v) / la.norm(v) for v in ((1., 0, 0), (0, 1., 1.), (1., -1., 1.), (.3, -.7, .2), (0, 0, 1.), (1., 2., 0))]
    Bs = [np.eye(3), np.diag([.9, 1., 1.2]), sym(.98, 1.05, .93, -.03, .02, .04), rot((1, 1, 0), 50.).dot(np.diag([1.1, .9, .95])), R([[1., .2, .1], [0, .9, .3], [0, 0, 1.1]])]
    Qs = [np.eye(3), rot((1, 2, 3), 77.)] + ([rot((0, 0, 1), 180.), -np.eye(3)] if u['deep'] else [])
    for B, b, m, s, Q in list(itertools.product(Bs, dirs, dirs, (.02, -.25, .4), Qs))[u['part']::u['parts']]:
        A = Q.dot(B + s * np.outer(b, m))
        if la.det(B + s * np.outer(b, m)) / la.det(B) < .05:
            continue
        rec.ctx = dict(A=A.tolist(), B=B.tolist())
        rec.require(rec.call(f, A, B) is True, 'rank-one connected up to a rotation, but not compatible')
        rec.require(rec.call(f, B, A) is True, 'compatibility is not symmetric')
        rec.state((key(A), key(B)))
        rec.trace(sample=rec.ctx, outcome='compatible')
        for t in (1.002, .997, 1.3, .7, 1.00004, .99996):
            X = A * t
            C = la.inv(B).T.dot(X.T).dot(X).dot(la.inv(B))
            mid = la.eigvalsh(symmetrise(C))[1]
            if abs(mid - 1) > 3e-5:
                rec.require(rec.call(f, X, B) is False, 'compatible although the middle eigenvalue is %.6f' % mid, scale=t)
                rec.trace(outcome='incompatible')
    if u['part'] == 0:
        for a, b in (([[1.]], np.eye(3)), (np.eye(3), None), (np.eye(3).tolist(), np.eye(3)), (3, 4)):
            rec.require(rec.call(f, a, b) is False, 'something that is not a matrix is compatible')
            rec.trace()


register('C26', dict(quick='1080 rank-one connected pairs up to rotation (5 tensors, 6 x 6 directions, 3 amplitudes, 2 rotations), both orders, and 6 detuned ones each', thorough='4 orthogonal transformations'), c26_units, c26_explore,
         ['middle eigenvalues between 1e-5 and 3e-5 from 1 are not decided'])


# -------------------------------------------------------------------------- C27
def c27_explore(rec, u):
    def cof(A):
        return R([np.cross(A[1], A[2]), np.cross(A[2], A[0]), np.cross(A[0], A[1])])
    for U, G, ts in systems(rec, u):
        for k, tp in enumerate(rec.call(ts.getTwinpairs)):
            Ui, Uj = tp.Ui(), tp.Uj()
            if not exact_pair(Ui, Uj):
                continue
            ax = twofold_axes(Ui, Uj)
            if ax is None:
                continue
            rec.ctx = dict(U=U.tolist(), laue=u['laue'], Ui=Ui.tolist(), Uj=Uj.tolist())
            if len(ax) > 1:
                rec.refuses(AttributeError, tp.XI)
                rec.refuses(AttributeError, tp.XII)
            elif len(ax) == 1:
                e = ax[0]
                for _ in range(2):
                    rec.require(abs(rec.call(tp.XI) - la.norm(la.inv(Ui).dot(e))) < 1e-7, 'X_I is not the length of the inverse image of the axis', got=tp.XI())
                    rec.require(abs(rec.call(tp.XII) - la.norm(Ui.dot(e))) < 1e-7, 'X_II is not the length of the image of the axis', got=tp.XII())
                # in every order of questions
                want = dict(XI=la.norm(la.inv(Ui).dot(e)), XII=la.norm(Ui.dot(e)))
                for order in itertools.permutations(('XI', 'XII', 'direct_cof', 'twinparam'), 3):
                    tq = rec.call(mod('marttrans.twin').TwinPair, Ui, Uj)
                    for f in order:
                        x = rec.call(getattr(tq, f))
                        rec.require(f not in want or x is not None and abs(x - want[f]) < 1e-7, 'the parameter depends on the questions before', order=order, what=f, got=x)
                    rec.trace(outcome=order)
            sols = rec.call(tp.twinparam)
            d = rec.call(tp.direct_cof)
            rec.require(len(d) == 2, 'two values expected')
            cu = cof(Ui.dot(Ui) - np.eye(3))
            for (Q, a, n), x in zip(sols, d):
                want = -Ui.dot(R(a)).dot(cu.dot(R(n)))
                rec.require(abs(x - want) < 1e-8, 'the direct value differs from its definition', got=x, want=want)
            if len(ax) == 1 and abs(la.eigvalsh(Ui)[1] - 1) < 1e-9:
                # with a middle stretch of 1, X = 1 exactly when the direct condition vanishes
                for X, x in ((tp.XI(), d[0]), (tp.XII(), d[1])):
                    if abs(X - 1) < 1e-9:
                        rec.require(abs(x) < 1e-6, 'the two forms of the cofactor condition disagree', X=X, direct=x)
            rec.state((key(Ui), key(Uj)))
            rec.trace(sample=rec.ctx, outcome=(len(ax), round(float(d[0]), 8)))


register('C27', dict(quick='every exactly twinnable pair of variants of about 150 stretch tensors (cubic) and 7 (hexagonal)', thorough='about 460 stretch tensors'), twin_units, c27_explore, [])
