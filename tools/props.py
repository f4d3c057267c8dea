"""The properties; writes properties.jsonl and MANIFEST.json (run once after editing, output is committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'structrans/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech], hook_needed=None),
                  technique=technique, note=note))


I, H, C, SCH = 'inputs', 'histories', 'configurations', 'schedules'
LC = 'marttrans/lat_cor/'
CR = 'crystallography/'

prop('C01', 'Every sublattice of a given index is enumerated exactly once',
     'For every index n >= 1 and every dimension, the enumeration of Hermite normal forms returns every integer matrix in (lower triangular, column-style) Hermite normal form with determinant n exactly once and nothing else; for every given diagonal it returns exactly the forms with that diagonal. The divisors of n it is built from are all divisors, each once.',
     [I], 'all n, all dimensions, all diagonals', 'Two tests compare the counts for a few n in 3D; they cannot see a missing or doubled form for another index, dimension or diagonal.',
     [CR + 'sublattice.py', CR + 'hnf.py', 'util/utils.py'], [('hnf_from_det, hnf_from_diag', CR + 'hnf.py'), ('divisors', 'util/utils.py')],
     'exhaustive explicit-state enumeration of the bounded index/dimension space on the real code', 'complete within the bounds; beyond them nothing is claimed')
prop('C02', 'Hermite normal form decomposition is exact and canonical',
     'For every nonsingular integer matrix M the decomposition returns H in Hermite normal form and an integer matrix L of determinant +1 or -1 with M = H L exactly; asking for H alone gives the same H. H depends only on the lattice the columns of M span, so two bases of the same sublattice give the same H, and the input is not modified.',
     [I], 'all nonsingular integer matrices; all words of elementary column operations', 'The tests decompose two fixed and a few random 3x3 matrices.',
     [CR + 'hnf.py', CR + 'sublattice.py'], [('hnfd', CR + 'hnf.py'), ('column gcd steps', CR + 'hnf.py')],
     'explicit-state exploration of the Cayley graph of GL(n,Z) and of all small matrices against an exact integer model', 'entries up to 2^31, dimensions up to 8')
prop('C03', 'The sublattice search visits one of each symmetry class and no other',
     'For every austenite lattice, every volume ratio and every volume threshold, the sublattices the correspondence search considers contain exactly one representative of each class of sublattices related by a rotation of the austenite lattice, for every integer size within the threshold of the volume ratio and for no other size (the nearest integer, at least 1, if there is none). This does not depend on the order of the list, the order of the group, or on reducing in parallel with any number of workers.',
     [I, C, SCH], 'all Bravais types, indices, volume ratios, thresholds, list orders, worker counts and result orders', 'No test runs the reduction at all.',
     [LC + 'main_hnf.py', CR + 'hnf.py'], [('reduce_hnfs, volume window', LC + 'main_hnf.py')],
     'exhaustive enumeration of types x indices x windows x list orders x worker counts on the real search with a recording worker', 'symmetry classes computed independently from the metric')
prop('C04', 'Lattice equality is equality of point sets',
     'Two lattice objects compare equal exactly when their bases generate the same set of points: a change of basis by any unimodular matrix keeps equality, a proper sublattice or superlattice, another dimension or anything that is not a lattice is never equal. Equality is reflexive, symmetric and transitive at every length scale.',
     [I], 'all pairs of commensurate lattices, all changes of basis', 'The tests compare a handful of pairs.',
     [CR + 'lattice.py'], [('Lattice.__eq__', CR + 'lattice.py')],
     'exhaustive exploration of all ordered pairs in commensurate families and of words in GL(n,Z)', 'reference: exact Hermite normal forms')
prop('C05', 'Point, Laue and lattice groups are the true symmetry groups',
     'For 2D and 3D lattices in standard axes, in the cubic or the hexagonal setting, the point group is the set of all orthogonal matrices that map the lattice to itself, the Laue group its rotations, and the lattice group and special lattice group the corresponding integer matrices; each is a group without repetitions, independent of the basis chosen and of the order of the questions. The membership tests agree with them for every matrix, and a matrix of another size is no member.',
     [I, H], 'all Bravais types, parameter coincidences, bases of the same lattice, query orders', 'The tests look at a few group orders of fixed lattices.',
     [CR + 'lattice.py', CR + 'matrix_group.py'], [('point_group, Laue_group, lattice_group, special_lattice_group', CR + 'lattice.py'), ('inpointgroup, inlatticegroup', CR + 'lattice.py')],
     'exhaustive enumeration of types, special parameters, neighbouring bases and candidate operations against an independent automorphism search', 'domain: lattices whose rotations lie in the cubic or hexagonal reference group in standard axes')
prop('C06', 'Matrix groups: predefined groups are complete, subgroup test is exact',
     'The predefined cubic, hexagonal and square groups contain exactly the rotations (in their extended form all orthogonal matrices) of the figure they are named after, each once, and are closed under multiplication and inversion. A group object has exactly the elements it was given, in any order, keeps them, and recognises another group as a subgroup exactly when all elements of that group are among its own; anything that is not a group is refused with a TypeError.',
     [I], 'all subgroups of the cubic, hexagonal and planar groups, all ordered pairs', 'No reliable test touches matrix groups.',
     [CR + 'matrix_group.py'], [('MatrixGroup.hassubgroup, matrices, order', CR + 'matrix_group.py'), ('CUBIC_LAUE_GROUP, HEX_LAUE_GROUP, SQUARE_GROUP, HEX2D_GROUP and extended ones', CR + 'matrix_group.py')],
     'exhaustive enumeration of all subgroups and all ordered pairs of them', 'reference: closure by breadth-first multiplication')
prop('C07', 'Bravais lattices have the geometry of their type and parameters',
     'For each of the 14 3D and 5 2D Bravais types and all valid parameters, the conventional base has exactly the edge lengths and angles the parameters state, the primitive base generates exactly the conventional lattice with its centring points, is right-handed and related to the conventional base by the stated conversion. Type, parameters and description are given back as passed, whether they were passed as number, list, tuple or array.',
     [I, C], 'all types and valid parameters, all ways of passing them', 'The test for Bravais lattices is not among the reliable ones and fixes a few numbers.',
     [CR + 'bravais_lattice.py'], [('__primitiveBase', CR + 'bravais_lattice.py'), ('conventional_base, conventional_trans', CR + 'bravais_lattice.py')],
     'exhaustive enumeration of types x parameter grid x input forms', 'reference: metric tensor and centring translations')
prop('C08', 'Malformed lattices and indices are refused',
     'A base that is not a square matrix of independent vectors, an unknown Bravais type or dimension, a wrong number of parameters, a non-positive length, impossible angles and Miller indices of the wrong length are all refused with a ValueError and never produce a lattice or an index. Well-formed input is never refused.',
     [I], 'all malformed shapes, counts, values', 'Tests try three bad bases.',
     [CR + 'lattice.py', CR + 'bravais_lattice.py'], [('Lattice.__init__', CR + 'lattice.py'), ('BravaisLattice.__init__', CR + 'bravais_lattice.py')],
     'exhaustive enumeration of the bounded space of malformed inputs', 'near-degenerate bases are not decided')
prop('C09', 'Miller index conversion is exact, linear and invertible',
     'For every Bravais lattice and every index, conversion between conventional and primitive indices describes the same vector in the other base, and converting back returns the index. One index gives one index, a list gives the list in order, and the input is not modified.',
     [I, C], 'all types, indices, batch sizes and input forms', 'Conversion is not tested reliably.',
     [CR + 'bravais_lattice.py'], [('to_primitive_Miller, to_conventional_Miller', CR + 'bravais_lattice.py')],
     'exhaustive enumeration of types x indices x batch sizes x forms, both directions and round trips', 'exact up to round-off')
prop('C10', 'Lattice reduction returns a reduced basis of the same lattice',
     'For every nonsingular base, integer or real, the reduction returns a base of the same lattice whose Gram-Schmidt coefficients are at most one half and which satisfies the exchange condition, so that no vector can be shortened by subtracting another. The input is not modified.',
     [I], 'all bases within the bounds, all changes of basis of Bravais lattices', 'Not covered by any reliable test.',
     [CR + 'lattice_reduction.py'], [('LLL, Gauss_reduction', CR + 'lattice_reduction.py')],
     'exhaustive enumeration of small bases and of neighbourhoods in GL(n,Z)', 'exchange factor 3/4 up to round-off')
prop('C11', 'Distances measure the deformation and nothing else',
     'The Cauchy, Ericksen and strain distances of a correspondence equal their definitions for every integer matrix (nonsingular for strain), are zero exactly for the correspondence that carries one lattice onto a rotated copy of the other, and are unchanged by rotating either crystal or by symmetries of the austenite (and of the martensite for Cauchy and strain). The batch version gives for every correspondence of a list of any length the same number as the single version.',
     [I, C], 'all correspondences within the bounds, all symmetry elements, all batch sizes', 'No test evaluates a distance.',
     [LC + 'dist.py'], [('Cauchy_dist, Cauchy_dist_vec, Eric_dist, strain_dist', LC + 'dist.py')],
     'exhaustive enumeration of correspondences x lattice pairs x symmetry elements x batch sizes', 'reference: own formulas')
prop('C12', 'Integer vectors within a radius are enumerated exactly once and resumably',
     'The generator behind the direct search yields every integer vector within the radius exactly once, and none outside, in every dimension. Stopped anywhere and resumed from the next vector it yields exactly the rest, in the same order, without repetition; resumed with another radius it continues in the order of that radius and loses no vector within it.',
     [I, H], 'all dimensions, radii and interruption points', 'Not tested.',
     [LC + 'main_direct.py'], [('vec_generator', LC + 'main_direct.py')],
     'exhaustive enumeration of radii and of every interruption point', 'radii that are exactly the length of an integer vector are not used')
prop('C13', 'The direct search returns the globally best correspondences',
     'For every pair of lattices and every number of solutions asked for, the direct search terminates and returns a list sorted by distance, whose first n distances are the n smallest over all symmetry classes of integer nonsingular correspondences, with no two solutions related by symmetry and extra ones only when they tie with the last. The result does not depend on the random starting points or on the slice size.',
     [I, C, H], 'all lattice pairs, solution counts, slice sizes, sequences of random starting points', 'No reliable test runs a correspondence search.',
     [LC + 'main_direct.py', LC + 'quartic_opt.py', LC + 'dist.py'], [('lat_cor search loop, radius bound, add_sol', LC + 'main_direct.py'), ('quart_min', LC + 'quartic_opt.py')],
     'exhaustive branch and bound over all correspondences (oracle) vs. the real search under scripted randomness, over an enumerated set of transformations', '2D mainly; 3D limited to near-identity transformations for cost')
prop('C14', 'The HNF search returns the best correspondences within the volume threshold',
     'For every pair of lattices, distance and volume threshold, the search through sublattices terminates and returns at least as many solutions as asked for, sorted by distance, the first being the globally best one among all correspondences whose size lies within the threshold; in 2D the first n are the n best classes. No two solutions are related by symmetries of the two lattices (a symmetry of a sublattice alone does not count) and extra ones only tie with the last.',
     [I, C], 'all lattice pairs, distances, thresholds, solution counts', 'No reliable test runs a correspondence search.',
     [LC + 'main_hnf.py', LC + 'lat_opt.py', LC + 'slnode.py', LC + 'dfs.py'], [('lat_cor, merge_sols', LC + 'main_hnf.py'), ('lat_opt', LC + 'lat_opt.py')],
     'exhaustive branch and bound over all correspondences in the volume window (oracle) vs. the real search over an enumerated set of transformations', 'Ericksen distance only where it is a function of the product lattice; 3D: first solution')
prop('C15', 'Every reported solution describes one consistent transformation',
     'In every solution of either search the sublattice is a Hermite normal form with a unimodular change of basis (an integer nonsingular matrix for the direct search), the correspondence matrix is the same transformation in conventional indices, the stretch tensor is real, symmetric, positive definite and carries the sublattice onto the martensite lattice up to a rotation, the principal stretches are its sorted eigenvalues, and the distance is that of the correspondence. Solutions do not share data.',
     [I, C], 'all transformations, distances and solutions', 'No reliable test inspects a solution.',
     [LC + 'main_hnf.py', LC + 'main_direct.py'], [('assembly of the solutions (cor, u, lams, d)', LC + 'main_hnf.py'), ('assembly of the solutions', LC + 'main_direct.py')],
     'exhaustive check of every solution of both searches over an enumerated set of transformations', 'bases as decided by C07')
prop('C16', 'Parallel search gives the serial result for every completion order',
     'When the optimisation of sublattices is distributed over a pool of any size, the solutions equal those of the serial search whatever the order in which tasks finish and however often an unfinished task is polled; they stay sorted and consistent, and no more tasks than the pool size are in flight. Reducing the list of sublattices in parallel does not change the solutions either.',
     [SCH, C], 'all completion orders, pool sizes and polling delays within the bound', 'No test uses the parallel interface; a run of it shows one completion order.',
     [LC + 'main_hnf.py', LC + 'lat_opt.py'], [('job loop with poolsize, merge_sols', LC + 'main_hnf.py'), ('lat_opt_unpack', LC + 'lat_opt.py')],
     'stateless model checking: controlled scheduler decides every readiness poll, all schedules up to a delay bound', 'workers modelled as pickled calls of the real task function')
prop('C17', 'A search gives the same answer whatever was computed before',
     'The result of a correspondence search, a local optimisation or a group computation in a process that has already done others, with other lattices, dimensions, distances or settings, equals the result in a fresh process.',
     [H], 'all sequences of computations up to the bound', 'Tests run each computation once; the caches and class-level state survive between calls.',
     [LC + 'lat_opt.py', LC + 'slnode.py', LC + 'dfs.py', LC + 'main_hnf.py', LC + 'main_direct.py'], [('caches and class attributes of SLNode and lat_opt', LC + 'slnode.py'), ('default cache', LC + 'dfs.py')],
     'exhaustive enumeration of operation sequences in one process against fresh-process results', '10 computations, pairs (quick) or triples (thorough)')
prop('C18', 'Local descent reaches a true local minimum; the search tree is complete',
     'Every unimodular matrix within k elementary steps of the start is reachable in the search tree at depth k, and descent from any start ends at a matrix whose distance is no larger than that of the start or of any elementary neighbour. The optimisation over one sublattice returns a change of basis that no matrix within two elementary steps (three in 2D) improves, independent of the basis in which the sublattice is given.',
     [I, H], 'all start matrices, tree paths, distances and bases within the bound', 'Not tested.',
     [LC + 'slnode.py', LC + 'dfs.py', LC + 'lat_opt.py'], [('SLNode.children pruning', LC + 'slnode.py'), ('dfs', LC + 'dfs.py'), ('lat_opt', LC + 'lat_opt.py')],
     'explicit-state exploration of the whole tree of unimodular matrices to a depth; descent from every state', 'depth bounds as stated')
prop('C19', 'Martensite variants are exactly the symmetry orbit of the stretch tensor',
     'For every stretch tensor and Laue group the variants are the distinct tensors Q U Q^T over the group, each once, the given one first; the variant with number n is the n-th of them and the recorded symmetry elements of a variant are exactly those that lead to it. The transformation is reported reversible exactly when all rotations preserving the martensite lattice belong to the group, and variants are refused otherwise or when no tensor was given.',
     [I, C], 'all stretch tensors of all symmetry types, all Laue groups and element orders', 'The martensite tests are commented out.',
     ['marttrans/martensite.py'], [('calcvariants, isreversible', 'marttrans/martensite.py')],
     'exhaustive enumeration of stretch tensors x groups x element orders against the computed orbit', 'near-coincident variants excluded; reversibility where symmetry axes are cubic ones')
prop('C20', 'Objects answer from their own data whatever callers do before and after',
     'A lattice, matrix group, martensite, twin system or twin pair gives the same answers regardless of which other questions were asked before, of changes the caller makes afterwards to arrays it passed in or got back, and of new objects derived from it by setting another stretch tensor or group. The predefined groups cannot be changed through what they hand out.',
     [H], 'all histories of operations and caller-side changes up to the bound', 'Tests ask one question per object.',
     ['marttrans/martensite.py', 'marttrans/twin.py', CR + 'lattice.py', CR + 'bravais_lattice.py', CR + 'matrix_group.py'], [('copies on the way in and out, lazily computed attributes', 'marttrans/martensite.py'), ('lazy attributes of TwinPair', 'marttrans/twin.py'), ('cached groups', CR + 'lattice.py')],
     'exhaustive enumeration of operation histories to depth 2-4 on live objects, compared with fresh objects', 'reference: answer of a fresh object')
prop('C21', 'Stretch tensors and Laue groups are taken as given or refused',
     'One to four numbers or a 3x3 matrix set exactly the stretch tensor they stand for when it is symmetric positive definite; everything else (asymmetric, indefinite, wrong shape or count) is refused with a TypeError. The Laue group can be set by any Bravais type 1-14 or a group, anything else raises ValueError; setting either returns a new object that keeps the other attribute and leaves the old object alone, and twin pairs refuse tensors that are not symmetric positive definite. A twin system has the Laue group it is given (that of the martensite, or the cubic one) and refuses anything that is not a group with a ValueError.',
     [I, H], 'all argument counts, sign patterns, asymmetries and group ids', 'The martensite tests are commented out.',
     ['marttrans/martensite.py', 'util/utils.py', 'marttrans/twin.py'], [('setU, setLaue', 'marttrans/martensite.py'), ('pos_def_sym', 'util/utils.py')],
     'exhaustive enumeration of a grid of valid and invalid inputs', 'tensors within 1e-9 of singular not decided')
prop('C22', 'Twin solutions satisfy the twinning equation',
     'For every rank-one connected pair of stretch tensors, variants of one another or not, both reported solutions (Q, a, n) satisfy Q Uj - Ui = a x n with Q a rotation and n a unit vector, differ from each other, and are the type I and type II twins of the twin axis when there is exactly one. A twin axis is reported exactly when the 180 degree rotation about it carries one tensor into the other. Incompatible or identical tensors are reported as not twinnable and their parameters refused.',
     [I], 'all twinnable pairs of variants, all constructed rank-one connections', 'The twin tests are commented out.',
     ['marttrans/twin.py', 'util/utils.py'], [('twinparam, istwinnable, ax', 'marttrans/twin.py')],
     'exhaustive enumeration of all variant pairs of a family of transformations and of constructed pairs', 'pairs twinnable only within the library tolerance are not decided')
prop('C23', 'The twin table lists exactly the twinnable pairs, correctly classified',
     'The twin table of a set of variants contains exactly the index pairs i < j that are rank-one connected (within the library tolerance), in step with the list of twin pairs. A pair is listed as conventional exactly when a 180 degree rotation of the Laue group of the transformation relates the two variants, as compound exactly when more than one 180 degree rotation does, and as type I and type II otherwise; the twin axes are exactly the axes of these rotations.',
     [I, C], 'all pairs of variants, all Laue groups', 'The twin tests are commented out.',
     ['marttrans/twin.py'], [('TwinSystem.TwinTable, getConventional, getCompound, getTypeI, getTypeII', 'marttrans/twin.py'), ('TwinPair.isconventional, iscompound, ax', 'marttrans/twin.py')],
     'exhaustive enumeration of all pairs against all 180 degree rotations computed from eigenvectors', 'pairs within 1e-6 of the tolerance not decided')
prop('C24', 'Rank-one connection solvers return exactly the two solutions',
     'For every tensor C = (I + m x b)(I + b x m) the solvers return two pairs (b, m) with m a unit vector, both of which reproduce C and keep orientation, one of them being the given one. The austenite/martensite solver returns nothing when the middle eigenvalue of C is not 1, and input that is not symmetric positive definite is refused.',
     [I], 'all directions and amplitudes within the grid', 'Not tested.',
     ['util/utils.py', 'marttrans/Compatibility.py', 'marttrans/twin.py'], [('solve_rank1', 'util/utils.py'), ('AM_Solver', 'marttrans/Compatibility.py')],
     'exhaustive enumeration of constructed connections, each solver', 'tensors with a repeated eigenvalue 1 at reduced accuracy')
prop('C25', 'Volume fractions and habit planes make the laminate compatible',
     'For every twinnable pair and twin type, a volume fraction in [0, 1] is reported exactly when a laminate of that twin is compatible with the austenite, and then the laminate with fraction f (and 1 - f) has middle stretch 1. Compatibility and the habit planes follow from it: two planes for each such laminate of the requested type, each with a unit normal and a rotation connecting austenite and laminate; they are refused when there is none, and unknown types raise ValueError.',
     [I, C], 'all twinnable pairs, twin types', 'Not tested.',
     ['marttrans/twin.py'], [('volumefrac, iscompatible, habitplanes', 'marttrans/twin.py')],
     'exhaustive enumeration of all twin pairs of a family of transformations, roots of the compatibility equation as oracle', 'fractions within 1e-5 of 0 or 1 and double roots not decided')
prop('C26', 'Compatibility test is exact, symmetric and rotation invariant',
     'Two deformation gradients are reported compatible exactly when one, up to a rotation, differs from the other by a rank-one matrix; the answer is the same in both orders and after rotating either. Input that is not a pair of arrays is not compatible.',
     [I], 'all constructed rank-one connections, rotations and detunings', 'Not tested.',
     ['marttrans/Compatibility.py', 'mat_math.py'], [('isCompatible', 'marttrans/Compatibility.py'), ('eigSort', 'mat_math.py')],
     'exhaustive enumeration of constructed pairs, both orders, and their detuned counterparts', 'middle eigenvalues 1e-5 to 3e-5 from 1 not decided')
prop('C27', 'Cofactor condition parameters equal their definitions',
     'For every twin pair with exactly one twin axis e, the type I parameter is |Ui^-1 e| and the type II parameter is |Ui e|; for compound twins both are refused. The direct cofactor values are the scalar products -(Ui a).cof(Ui^2 - I) n of the two twin solutions.',
     [I], 'all twin pairs', 'Not tested.',
     ['marttrans/twin.py', 'mat_math.py'], [('XI, XII, direct_cof', 'marttrans/twin.py')],
     'exhaustive enumeration of all twin pairs of a family of transformations', 'axes from an independent search')
prop('C28', 'Rotation matrices rotate by the angle about the axis',
     'A rotation by any angle, in degrees or radians, about any axis of any length is the right-handed rotation by that angle about that axis. Euler angles apply three rotations about the fixed axes named by the order, first letter first, in either case and unit; a number of angles or axes other than three and unknown axes raise ValueError.',
     [I], 'all axes, scales, angles, orders, units', 'The utility tests are commented out.',
     ['util/utils.py'], [('rotation, Euler', 'util/utils.py')],
     'exhaustive enumeration of axes x angles x units x input forms and of all orders', "reference: Rodrigues' formula")
prop('C29', 'Directions and planes transform consistently under a correspondence',
     'For every invertible lattice correspondence L, directions transform by the inverse of L and planes by the transpose of L, so that a direction lies in a plane after the transformation exactly when it did before. One index gives one, a list gives the list in order, for lists and arrays alike.',
     [I], 'all correspondences and indices within the bounds', 'The orientation relationship tests are commented out.',
     ['marttrans/orientation_relationship.py'], [('direc_trans, plane_trans', 'marttrans/orientation_relationship.py')],
     'exhaustive enumeration of correspondences x indices x forms', '')
prop('C30', 'Stereographic projections keep angles and positions',
     'The projection of any vector along any zone axis of integers has the distance |z| tan(theta/2) from the centre, where theta is its angle to the axis, with vectors of the lower hemisphere mirrored to the upper one, and the polar angles between projected vectors are those around the axis, in the same sense. It does not depend on the length of the vector, the axis itself projects to the centre, and a pole figure is the list of the projections in order.',
     [I], 'all zone axes and vectors within the bounds', 'Not tested.',
     [CR + 'stereogram.py'], [('stereo_proj, pole_figure', CR + 'stereogram.py')],
     'exhaustive enumeration of zone axes x vectors, all mutual angles', 'accuracy limited by the rounding of the library')
prop('C31', 'Screw operations are rotations with the stated fractional translation',
     'The screw operation of order n with parameter p along a lattice vector T is the rotation by 360/n degrees about T with a translation along T that equals p/n T up to a multiple of T and lies within one T; applied n times it is a lattice translation.',
     [I], 'all orders, parameters, axes', 'Not tested.',
     [CR + 'spacegroup.py', 'util/utils.py'], [('skew', CR + 'spacegroup.py')],
     'exhaustive enumeration of orders x parameters x axes', '')
prop('C32', 'Unit cells have the corners and edges of their lattice cell',
     'For every Bravais lattice and origin, the primitive and conventional cells have exactly the 8 (2D: 4) corners of one cell at that origin, the bonds are exactly its 12 (2D: 4) edges, each once, and a copy is the list shifted by the new origin. Moving the origin moves all of them.',
     [I, H], 'all types, parameters, origins and moves', 'Not tested.',
     [CR + 'visualization.py'], [('UnitCell, vertex, bonds', CR + 'visualization.py')],
     'exhaustive enumeration of types x parameters x sequences of origins', 'the list of lattice points inside the conventional cell is not decided')
prop('C33', 'Batch matrix functions agree with ordinary matrix algebra',
     'For lists of square matrices of any dimension and length, integer or real, product, trace, determinant and transpose equal those of the single matrices and do not change their input. Unique rows are returned once with the index of their first occurrence, the cofactor matrix is that of signed minors, and eigenvalues of symmetric matrices come in ascending order with unit eigenvectors.',
     [I], 'all small matrices, batch sizes, dtypes', 'Not tested.',
     ['mat_math.py', 'util/utils.py'], [('mat_dot, mat_trace, mat_det, mat_T, mat_eig, unique_rows, cofactor, eigSort', 'mat_math.py')],
     'exhaustive enumeration of small matrices in batches of all sizes in the bound', 'reference: exact integer determinants')
prop('C34', 'Deprecated names give the same answers as their replacements',
     'Every deprecated method of lattices and Bravais lattices that still exists returns the same value as the method that replaces it, on every lattice and in every order of calls.',
     [I, H], 'all deprecated names, lattices, call orders', 'Tests use the new names only.',
     [CR + 'lattice.py', CR + 'bravais_lattice.py'], [('deprecated methods', CR + 'lattice.py'), ('deprecated methods', CR + 'bravais_lattice.py')],
     'exhaustive enumeration of names x types x call orders', 'a removed name is reported as not explored')
prop('C35', 'Microstructure objects keep the stretch tensor and group last set',
     'After any sequence of settings a microstructure object holds the stretch tensor that the last valid one to four numbers or matrix stand for and the rotation group of the last valid Bravais type (the cubic group at first). Wrong numbers of arguments and wrong types are refused and change nothing.',
     [H, I], 'all sequences of valid and invalid settings up to the bound', 'Not tested.',
     ['marttrans/Compatibility.py'], [('Microstructure.setU, setLaue', 'marttrans/Compatibility.py')],
     'exhaustive enumeration of operation sequences on the real object', '')
prop('C36', 'Printed and logged reports state the solutions that are returned',
     'For every search, distance and number of solutions, the printed report describes both lattices and states every returned solution once, in order, with its lattice correspondence, stretch tensor, sublattice, eigen strains and distance; the log holds the same report. At display level 0 nothing is printed, and neither the display level nor logging changes the solutions.',
     [I, C], 'all transformations, display levels and logging settings', 'No test looks at a report.',
     [LC + 'main_hnf.py', LC + 'main_direct.py', LC + 'lat_opt.py'], [('_sols_tostr, lprint', LC + 'main_hnf.py'), ('_sols_tostr, lprint', LC + 'main_direct.py')],
     'exhaustive enumeration of transformations x display levels x logging on the real searches; every report is parsed and compared with the returned solutions', 'labels as they are now; layout not decided')
prop('C37', 'Depth options of the search never corrupt its result',
     'For every transformation and every combination of the least and the greatest search depth, the sublattice search terminates with a non-empty list, sorted by distance, of pairwise inequivalent correspondences within the volume threshold whose stated distances are right, extra ones only tying with the last; a search at least as deep as the default one has the global optimum first.',
     [I, C], 'all transformations and depth options', 'No reliable test runs a search.',
     [LC + 'lat_opt.py', LC + 'main_hnf.py'], [('miniter, maxiter', LC + 'lat_opt.py'), ('options', LC + 'main_hnf.py')],
     'exhaustive enumeration of transformations x depth options, compared with branch and bound over all correspondences', 'optimality claimed from the default depth on')

prop('C38', 'Results do not depend on the unit of length',
     'Expressing all lengths of a problem in another unit changes nothing but the unit: the groups of a lattice, equality of lattices, conversions of indices, transformation distances and the distances of the solutions of both searches stay the same, and bases, reduced bases, screw translations and unit cells are scaled with the unit. Stereographic projections do not depend on the length of the vector.',
     [I], 'all Bravais types, transformations and vectors, units of length from 1e-9 to 1e9', 'Tests use lengths near 1.',
     [CR + 'lattice.py', CR + 'bravais_lattice.py', CR + 'lattice_reduction.py', CR + 'stereogram.py', CR + 'spacegroup.py', LC + 'main_hnf.py', LC + 'main_direct.py', LC + 'dist.py'], [('tolerances of the lattice classes', CR + 'lattice.py'), ('searches', LC + 'main_hnf.py')],
     'exhaustive enumeration of types, transformations and vectors x units of length on the real code; every unit is compared with the first', 'units are powers of 64, so that scaling is exact')
prop('C39', 'Answers do not depend on how an argument is stored; arguments never change',
     'The value of a public function depends only on the numbers it is given: memory layout, views, byte order, read-only storage, whole numbers as integers or floats, and (where accepted) lists and tuples give the same value. No argument is modified, no answer shares memory with an argument or with a later answer, and asking again gives the same answer.',
     [I, H], 'all public numerical functions, arguments, storage forms, repeated calls with answers overwritten', 'Tests pass fresh contiguous arrays and ask once.',
     [CR + 'lattice.py', CR + 'hnf.py', CR + 'lattice_reduction.py', CR + 'matrix_group.py', 'marttrans/twin.py', 'marttrans/martensite.py', LC + 'dist.py', 'mat_math.py', 'util/utils.py'], [('public numerical functions', 'mat_math.py')],
     'exhaustive enumeration of functions x arguments x storage forms x repeated calls on the real code', 'a function may refuse lists; it may not misread them')
prop('C40', 'Twin analysis depends on neither the frame of reference nor the order',
     'For every pair of variants, rotating both into another frame of reference or exchanging them changes none of: whether they are twinnable, the type of the twin, whether it is conventional, the cofactor values, the compatibility with austenite and the number of habit planes, the volume fractions (up to f and 1-f). The twin solutions rotate with the frame.',
     [I], 'all pairs of variants of all stretch tensors of the family, frames, both orders', 'Tests of twins are commented out or look at one frame.',
     ['marttrans/twin.py', 'marttrans/martensite.py'], [('TwinPair', 'marttrans/twin.py'), ('TwinSystem', 'marttrans/twin.py')],
     'exhaustive enumeration of stretch tensors x pairs x frames x orders on the real objects', 'cases within the tolerance of a decision are not decided')
prop('C41', 'The optimum does not depend on how a lattice is named or described',
     'A lattice that belongs to several Bravais types (a cubic one given as tetragonal, orthorhombic, trigonal or triclinic; a square one as centred; a rectangular one with its axes exchanged) is the same point lattice under each name, and a transformation from or to it has the same least distance under each of them, for both searches.',
     [I, C], 'all kinds of lattices, all names of each, both searches', 'Tests give every lattice one name.',
     [CR + 'bravais_lattice.py', LC + 'main_hnf.py', LC + 'main_direct.py', LC + 'lat_opt.py'], [('BravaisLattice', CR + 'bravais_lattice.py'), ('lat_cor_hnf', LC + 'main_hnf.py')],
     'exhaustive enumeration of kinds of lattices x names x searches on the real code', 'further solutions are compared where the orientation shows all symmetries')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks = []
    for p in P:
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique='model checking: ' + p['technique'], level='model_checking',
                           level_note=('Bounded exhaustive exploration of the real code; bounds in the evidence file. ' + p['note']).strip()))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
                       notes='No hooks in /repo: everything is observed through the API of the library; randomness, worker pools and processor counts are controlled from the harness.'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
