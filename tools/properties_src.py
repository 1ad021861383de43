"""Source of /verif/properties.jsonl.  Run:  python3 tools/properties_src.py  (from /verif)."""
import json
import os

B = 'products/ellipy/'
ELL = B + 'elltool/core/ellipsoid/Ellipsoid.py'
AEL = B + 'elltool/core/aellipsoid/AEllipsoid.py'
ABE = B + 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HYP = B + 'elltool/core/hyperplane/Hyperplane.py'
CORE = B + 'elltool/core/core.py'
LA = B + 'gras/la/la.py'
GEN = B + 'gras/gen/gen.py'
GEOM = B + 'gras/geom/geom.py'
GELL = B + 'gras/geom/ell/ell.py'
TRI = B + 'gras/geom/tri/tri.py'
SUP = B + 'gras/geom/sup/sup.py'
SYM = B + 'gras/sym/sym.py'
COM = B + 'gen/common/common.py'
DIC = B + 'gen/dict/dict.py'
LOG = B + 'gen/logging/logging.py'
PRP = B + 'elltool/conf/properties/Properties.py'
PPR = B + 'elltool/conf/properties/_ParseProp.py'

P = []


def p(pid, title, statement, over, text, why, mech, files=None, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=sorted(set(files or [w.split('::')[0] for _, w in mech])),
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = state
    d['anchors']['hook_needed'] = None
    P.append(d)


p('C01', 'Only valid ellipsoids exist, isolated from caller arrays',
  'Every ellipsoid that can be constructed has a finite centre vector and a finite square shape matrix of the same '
  'dimension that is symmetric and positive semidefinite within the object\'s absolute tolerance, and reports exactly the '
  'data it was given (a shape alone means centre zero, nothing means the empty ellipsoid). Input that is non-square, '
  'asymmetric, indefinite, complex beyond the tolerance, NaN or infinite, or of mismatched dimension is rejected with an '
  'error. Writing into the arrays passed in, or into arrays the object handed out, never changes the object.',
  ['inputs', 'histories'],
  'all centre/shape pairs of any dimension, valid or invalid, with any tolerance setting, followed by any sequence of '
  'writes to the caller\'s arrays and to arrays returned by the object',
  'Tests try a handful of literal matrices; they do not sweep near-tolerance inputs, dimensions or aliasing histories.',
  [('validating setters', ELL + '::Ellipsoid._shape_mat'), ('centre setter', AEL + '::AEllipsoid._center_vec'),
   ('constructor', ELL + '::Ellipsoid.__init__'), ('complex handling', LA + '::try_treat_as_real')])

p('C02', 'Copies, replicas and exported dictionaries preserve every element',
  'Copying an array of ellipsoids or hyperplanes, replicating one object to a requested size, and exporting to '
  'dictionaries with settings and importing again each give an array of the same (requested) shape whose elements '
  'describe the same sets with the same absolute and relative tolerances and plotting resolutions as the originals. '
  'The results are distinct objects: changing one in place never affects the original or another replica.',
  ['inputs', 'histories'],
  'all object arrays of any shape (including one element and zero elements), dimension and per-object settings; all '
  'later in-place changes',
  'Tests copy two or three default-setting objects and compare data only; settings, shapes and independence are not swept.',
  [('element copy', ELL + '::Ellipsoid._get_single_copy'), ('element copy', HYP + '::Hyperplane._get_single_copy'),
   ('array copy', ABE + '::ABasicEllipsoid.get_copy'), ('replication', ABE + '::ABasicEllipsoid.rep_mat'),
   ('export/import', ELL + '::Ellipsoid.to_dict/from_dict'), ('export/import', HYP + '::Hyperplane.to_dict/from_dict')])

p('C03', 'Ellipsoid equality is tolerance equality of centre and root of shape',
  'Two ellipsoids compare equal exactly when they have the same dimension and their centres and the positive square '
  'roots of their shape matrices agree within the smaller absolute tolerance or, where the absolute difference exceeds '
  'it, within the smaller relative tolerance of the arrays compared; the relation is reflexive and symmetric and '
  '"not equal" is always its negation. Arrays are compared element by element, a single object being compared with '
  'every element of the other array, and the difference report is empty exactly when everything is equal. When settings '
  'are included, objects with equal geometry compare different exactly when some setting differs beyond those tolerances.',
  ['inputs', 'configurations'],
  'all pairs of ellipsoids or arrays of them (any shape, single element in any nesting, empty, mixed dimensions), all '
  'tolerance settings, perturbations on both sides of the tolerance',
  'Tests compare a few pairs and fixed arrays; near-tolerance pairs, broadcasting shapes and settings comparison are not covered.',
  [('comparison', ABE + '::ABasicEllipsoid._is_equal_internal'), ('operators', ABE + '::ABasicEllipsoid.__eq__'),
   ('export used by comparison', ELL + '::Ellipsoid.to_dict'), ('dictionary comparison', DIC + '::dict_compare_vec')])

p('C04', 'Support function and support points are exact',
  'For an ellipsoid with centre q and shape Q and a non-zero direction l, the support value returned is <q,l> + '
  'sqrt(<l,Ql>) and the returned point belongs to the ellipsoid and attains that value; directions in which the '
  'ellipsoid has no extent give the centre\'s value and a point of the ellipsoid. One ellipsoid with many directions, many ellipsoids '
  'with one direction, and matching arrays of both give element-wise the same answers as one-at-a-time calls.',
  ['inputs'],
  'all centres, semidefinite shapes of any dimension, directions of any scale, and all supported ways of pairing arrays '
  'of ellipsoids with arrays of directions',
  'Tests check a few 2-D and 3-D literals; degenerate directions and the pairing forms are sampled once each at most.',
  [('support evaluation', ELL + '::Ellipsoid.rho'), ('vectorised kernel', GELL + '::rho_mat'),
   ('clamped root', GEN + '::sqrt_pos')])

p('C05', 'Generated boundary points lie on the boundary and cover it',
  'For a two- or three-dimensional ellipsoid, every generated boundary point lies on its boundary: it satisfies the ellipsoid '
  'equation, and in the support-based form each point attains the support value returned for its direction. The number of '
  'points in 2-D is the requested number (or the object\'s configured number, scaled by the requested factor), in 3-D at '
  'least that number; the accompanying index grid is a closed loop (2-D) or closed surface (3-D) over exactly those points, '
  'and other dimensions are rejected.',
  ['inputs', 'configurations'],
  'all 2-D/3-D ellipsoids including flat ones, all point counts, factors and per-object plotting resolutions, with and '
  'without the index grid',
  'Tests compare stored point lists for a few ellipsoids; they never check the ellipsoid equation for arbitrary shapes, counts or factors.',
  [('boundary', ELL + '::Ellipsoid.get_boundary'), ('scaled', ELL + '::Ellipsoid.get_boundary_by_factor'),
   ('support boundary', ELL + '::Ellipsoid.get_rho_boundary'), ('unit sphere grid', TRI + '::sphere_tri_ext')])

p('C06', 'Point membership in unions and intersections is exact',
  'For every given point the membership test answers true in union mode exactly when the point lies in at least one '
  'ellipsoid of the array, and in intersection mode exactly when it lies in all of them, boundary points (within '
  'tolerance) counting as inside; degenerate ellipsoids are treated as their slight regularisation. The answer for a '
  'point depends neither on the other points tested nor on the order or arrangement of the ellipsoids, and bad modes, '
  'dimension mismatches and empty inputs are rejected.',
  ['inputs'],
  'all arrays of ellipsoids (any arrangement), all finite sets of points inside, outside and on the boundary, both modes',
  'Tests use fixed arrangements with hand-picked points; no sweep over membership patterns, tolerances or degenerate members.',
  [('membership', ELL + '::Ellipsoid.is_internal'), ('regularisation', ELL + '::Ellipsoid._regularize'),
   ('inverse', GELL + '::inv_mat')])

p('C07', 'External Minkowski-sum ellipsoids contain the sum and touch it',
  'For ellipsoids of one dimension and each given direction, the external approximation is an ellipsoid centred at the '
  'sum of the centres whose support value is at least the sum of the members\' support values in every direction and '
  'equals it in the given direction. One ellipsoid is returned per direction, in order; a single ellipsoid is its own sum '
  '(an equal but separate object per direction), and empty arrays, empty ellipsoids and mismatched dimensions are rejected.',
  ['inputs'],
  'all collections of one or more ellipsoids (including degenerate ones, up to their regularisation) in any dimension, '
  'all non-zero directions, and all test directions',
  'Tests compare against stored results for a few collections; containment over all directions is never checked.',
  [('external sum', ELL + '::Ellipsoid.minksum_ea'), ('quadratic form', GELL + '::quad_mat')])

p('C08', 'Internal Minkowski-sum ellipsoids lie in the sum and touch it',
  'For ellipsoids of one dimension and each given direction, the internal approximation is an ellipsoid centred at the '
  'sum of the centres whose support value is at most the sum of the members\' support values in every direction and '
  'equals it in the given direction. One ellipsoid is returned per direction, in order; a single ellipsoid is its own sum '
  '(an equal but separate object per direction), and empty arrays, empty ellipsoids and mismatched dimensions are rejected.',
  ['inputs'],
  'all collections of one or more ellipsoids (including degenerate ones, up to their regularisation) in any dimension, '
  'all non-zero directions, and all test directions',
  'Tests compare against stored results for a few collections; containment over all directions is never checked.',
  [('internal sum', ELL + '::Ellipsoid.minksum_ia'), ('rotation alignment', LA + '::ml_orth_transl'),
   ('matrix root', LA + '::sqrtm_pos')])

p('C09', 'Projection is the exact shadow, in place or as a copy as asked',
  'Projecting onto mutually orthogonal directions (of any non-zero lengths) gives the ellipsoid, in coordinates along the '
  'normalised directions, whose support value in any direction equals that of the original in the corresponding direction '
  'of the full space; settings are kept. The in-place form updates and returns the same objects, the copying form leaves '
  'the originals untouched, and non-orthogonal directions, too many directions or mismatched dimensions are rejected '
  'without changing any object.',
  ['inputs', 'histories'],
  'all arrays of ellipsoids, all orthogonal and non-orthogonal families of directions (either sign of inner product), '
  'chains of successive projections',
  'Tests project a few literals onto coordinate axes and one non-orthogonal pair.',
  [('projection', AEL + '::AEllipsoid.projection'), ('copying form', ELL + '::Ellipsoid.get_projection'),
   ('element update', ELL + '::Ellipsoid._projection_single_internal')])

p('C10', 'The polar ellipsoid is the polar set',
  'For a non-degenerate ellipsoid containing the origin in its interior, the polar is the ellipsoid of exactly those '
  'vectors l whose support value on the original is at most one; the polar of the polar is the original. Arrays are '
  'processed element by element keeping their shape, and a degenerate ellipsoid or one without the origin in its interior '
  'is rejected with an error.',
  ['inputs'],
  'all non-degenerate ellipsoids of any dimension with any off-centre interior origin, any array shape; all degenerate or '
  'origin-excluding ones for the rejection part',
  'Tests check centred or axis-offset literals against stored numbers and one ill-conditioned family.',
  [('polar', ELL + '::Ellipsoid.polar'), ('element polar', ELL + '::Ellipsoid._get_scalar_polar_internal'),
   ('quadratic form', GELL + '::quad_mat')])

p('C11', 'Centred containment test and simultaneous diagonalisation are right',
  'The "is bigger" test answers true exactly when the second ellipsoid, moved to the same centre, is contained in the '
  'first (within tolerance), whatever the centres, including degenerate ellipsoids, and rejects different dimensions. For a '
  'positive definite A and a symmetric positive semidefinite B the simultaneous diagonaliser T satisfies T A T\' = I with T B T\' '
  'diagonal, and unsuitable arguments are rejected.',
  ['inputs'],
  'all pairs of ellipsoids of one dimension (contained, crossing, scaled, degenerate), all admissible matrix pairs',
  'Tests use a handful of literals; crossing pairs that agree on axes and general positions are not sampled.',
  [('containment', ELL + '::Ellipsoid.is_bigger'), ('simultaneous diagonalisation', CORE + '::ell_sim_diag')])

p('C12', 'Volume, trace, eigenvalue bounds, dimension and rank are correct',
  'For every non-empty ellipsoid the reported volume, trace, smallest and largest eigenvalue, dimension, rank and '
  'degeneracy flag are those of its shape matrix (volume zero and flag true exactly when the smallest eigenvalue does not '
  'exceed the object\'s absolute tolerance), one scalar per element in array order. The empty ellipsoid is reported as empty with '
  'dimension zero and rejected by volume, trace, eigenvalue and degeneracy queries.',
  ['inputs', 'configurations'],
  'all arrays of ellipsoids in any dimension mixing degenerate and non-degenerate members and per-object tolerances',
  'Tests check a few literals per characteristic; mixed arrays, odd and even dimensions, and tolerance edges are not swept.',
  [('volume', AEL + '::AEllipsoid.volume'), ('trace', AEL + '::AEllipsoid.trace'), ('eigenvalues', AEL + '::AEllipsoid.min_eig/max_eig'),
   ('dimension and rank', AEL + '::AEllipsoid.dimension'), ('degeneracy', AEL + '::AEllipsoid.is_degenerate'),
   ('emptiness', ABE + '::ABasicEllipsoid.is_empty')])

p('C13', 'Hyperplane point membership is exact',
  'A point is reported on a hyperplane exactly when its inner product with the normal differs from the shift by less than '
  'the hyperplane\'s absolute tolerance; infinite coordinates are ignored where the normal vanishes and otherwise the '
  'point is not on it. One point against many hyperplanes, many points against one hyperplane and equal-sized lists '
  'pair up element by element in order; NaN points and mismatched dimensions are rejected.',
  ['inputs', 'configurations'],
  'all hyperplanes, tolerances, finite and infinite points and admissible pairings of points with hyperplanes',
  'Tests use fixed axis-parallel hyperplanes and points exactly on or far off them.',
  [('membership', HYP + '::Hyperplane.contains'), ('dimension', HYP + '::Hyperplane.dimension')])

p('C14', 'Hyperplane identity and parallelism ignore scaling and orientation',
  'Hyperplanes compare equal exactly when they are the same set of points within tolerance, so multiplying normal and '
  'shift by any common non-zero factor does not matter, including for hyperplanes through the origin. Two hyperplanes '
  'are parallel exactly when their normalised normals agree up to sign in every coordinate within tolerance, arrays being '
  'compared element by element and a single hyperplane with every element of the other array. Queries never change the '
  'stored normal or shift, which are reported exactly as given.',
  ['inputs'],
  'all pairs and arrays of hyperplanes with non-zero normals in any dimension, any non-zero scaling factor',
  'Tests use a few literal hyperplanes; scaled, reversed, through-origin and partially agreeing normals are not swept.',
  [('parallelism', HYP + '::Hyperplane.is_parallel'), ('canonical form', HYP + '::Hyperplane.to_dict'),
   ('comparison', ABE + '::ABasicEllipsoid._is_equal_internal'), ('setters', HYP + '::Hyperplane._normal_vec/_shift')])

p('C15', 'Negation reflects: ellipsoids through the origin, hyperplanes in place',
  'Negating an ellipsoid gives the ellipsoid reflected through the origin (opposite centre, same shape), and negating a '
  'hyperplane gives the same set of points with opposite normal and opposite shift. Arrays are negated element by element '
  'keeping their shape, results keep the settings and tolerances of the originals, negating twice gives back the original data, and the operands are never modified.',
  ['inputs'],
  'all arrays (including empty ones) of ellipsoids and hyperplanes of any shape and dimension',
  'Tests negate one or two literals.',
  [('ellipsoid negation', ELL + '::Ellipsoid.uminus'), ('hyperplane negation', HYP + '::Hyperplane.uminus')])

p('C16', 'Orthogonal translations rotate the source onto the destination',
  'Each of the orthogonal-translation builders (plain, Householder, QR, maximal direction, maximal trace, multi-vector, '
  'and the vector alignment helper) returns an orthogonal matrix that maps the source vector to the positive multiple of '
  'the destination vector of the same length, for every pair of non-zero vectors including parallel and opposite ones; '
  'zero vectors are rejected where checked. The maximal-trace variant attains the largest trace of the product with its '
  'given matrix over all such orthogonal maps, and the maximal-direction variant the largest inner product of the mapped '
  'auxiliary vector with its target.',
  ['inputs'],
  'all pairs of non-zero vectors in any dimension from 1 up, aligned, opposite, nearly parallel and generic, all auxiliary '
  'matrices and vectors',
  'Tests try a few random or literal pairs; near-parallel, opposite, low-dimensional pairs and optimality are not covered.',
  [('plain', LA + '::orth_transl'), ('Householder', LA + '::orth_transl_haus'), ('QR', LA + '::orth_transl_qr'),
   ('max direction', LA + '::orth_transl_max_dir'), ('max trace', LA + '::orth_transl_max_tr'),
   ('many vectors', LA + '::ml_orth_transl'), ('vector alignment', CORE + '::ell_valign')])

p('C17', 'Matrix predicates decide symmetry, definiteness and degeneracy',
  'A matrix is reported symmetric exactly when it differs from its transpose by at most the tolerance in every entry, '
  'positive definite (semidefinite) exactly when its smallest eigenvalue exceeds the tolerance (is not below minus the '
  'tolerance), and degenerate exactly when its smallest singular value is below a positive tolerance. Asymmetric or '
  'non-square input, negative tolerances and complex values with imaginary part above tolerance are rejected, and values '
  'with negligible imaginary part are treated as their real part.',
  ['inputs'],
  'all square and non-square matrices with prescribed spectra straddling the tolerance, all tolerances, real and complex',
  'Tests check a few literals well away from the decision boundary.',
  [('symmetry', LA + '::is_mat_symm'), ('definiteness', LA + '::is_mat_pos_def'), ('degeneracy', LA + '::is_mat_not_deg'),
   ('real part', LA + '::try_treat_as_real')])

p('C18', 'Matrix roots, regularisations and orthonormal bases are exact',
  'The positive root of a symmetric positive semidefinite matrix is symmetric positive semidefinite and squares back to '
  'it, and clearly indefinite input is rejected. Regularising a symmetric matrix raises exactly the eigenvalues below the '
  'tolerance to the tolerance and changes nothing else, regularising a general matrix does the same to its singular '
  'values, and a tolerance that is not positive is rejected. The orthonormal completion of a matrix is orthogonal, its '
  'leading columns span the same nested subspaces with non-negative diagonal coefficients, and non-negative scalar or '
  'array roots clamp only values within tolerance below zero.',
  ['inputs'],
  'all symmetric matrices with prescribed (repeated, tiny, negative) eigenvalues, general matrices, all tolerances',
  'Tests use a few literals; repeated eigenvalues, mixed signs near tolerance and tall/square shapes are not swept.',
  [('root', LA + '::sqrtm_pos'), ('regularisation', LA + '::reg_pos_def_mat'), ('singular regularisation', LA + '::reg_mat'),
   ('orthonormal basis', LA + '::mat_orth'), ('orthonormal columns', LA + '::math_orth_col'), ('clamped root', GEN + '::sqrt_pos')])

p('C19', 'Quadratic forms, inverse, ellipsoid volume and fusion criterion are exact',
  'The quadratic form with a matrix, or with its inverse by either solving method, equals the mathematical value for every '
  'vector and centre given as row, column or flat vector; the inverse is a true inverse; the volume formula matches '
  'the determinant formula in every dimension; the fusion criterion equals its defining expression, which is the '
  'derivative condition for the fused ellipsoid. Non-square matrices, mismatched dimensions, matrices in place of '
  'vectors and unknown methods are rejected.',
  ['inputs'],
  'all well-conditioned matrices (not necessarily symmetric), vectors, centres, dimensions, modes in any letter case',
  'Tests check one or two literals per mode.',
  [('quadratic form', GELL + '::quad_mat'), ('inverse', GELL + '::inv_mat'), ('volume', GELL + '::ell_volume'),
   ('fusion criterion', CORE + '::ell_fusion_lambda')])

p('C20', 'Page-wise matrix-array operations equal per-page linear algebra',
  'Operations on time-indexed stacks of matrices (transpose, upper triangle, symmetrisation, inverse, pseudo-inverse, '
  'root, products of two or three stacks, products with vectors, two-sided products and quadratic forms, function application, '
  'definiteness repair, average diagonal product) give on every page exactly what the corresponding matrix operation '
  'gives on that page alone, with single matrices applied to every page where allowed. Sparse and dense evaluation agree.',
  ['inputs'],
  'all stack sizes including one page and one-by-one or rectangular pages, all admissible pairings of stacks, single '
  'matrices and vectors, both evaluation strategies',
  'Tests use one stored stack per operation, mostly square with equal pages.',
  [('basic operations', GEN + '::MatVector'), ('square operations', GEN + '::SquareMatVector'), ('dot', GEN + '::mat_dot')])

p('C21', 'Eigen-factored products equal direct products',
  'For stacks of symmetric matrices the eigenvalue-based two-sided product, matrix-vector product, quadratic form and '
  'inverse quadratic form give the same values as direct multiplication (or solving) page by page, for every symmetric '
  'page, whatever its eigenvectors, repeated or negative eigenvalues. Vector arguments keep their shape and content.',
  ['inputs'],
  'all stacks of symmetric (for the inverse form, non-singular) matrices in any dimension with generic eigenvectors, both '
  'product sides',
  'Tests use matrices whose eigenvector matrix is symmetric, for which several wrong formulas give the right value.',
  [('eigen-factored operations', GEN + '::SymmetricMatVector')])

p('C22', 'Time-dependent expressions evaluate point by point',
  'Turning a textual matrix expression, a matrix of textual formulas or a function of time into a stack of matrices gives, '
  'for every time point, the matrix obtained by evaluating every entry at that time; scalar time gives one page, and row, column '
  'and matrix layouts are preserved, constants included. Empty expressions are rejected.',
  ['inputs', 'programs'],
  'all expressions over time built from constants, arithmetic and elementary functions in matrix layouts, all time vectors '
  'including a single time',
  'Tests evaluate a few fixed formulas.',
  [('expressions', GEN + '::MatVector.from_expression'), ('formula matrices', GEN + '::MatVector.from_formula_mat'),
   ('functions', GEN + '::MatVector.from_func')])

p('C23', 'Triangulation refinement preserves structure and meets the edge bound',
  'Refining a triangulation keeps all original vertices unchanged as a prefix and, when unlimited, ends with no edge '
  'longer than the bound; every new vertex is the (optionally adjusted) midpoint of an edge, and without adjustment the surface '
  'keeps its total area, boundary and Euler characteristic. The returned edge list and face-to-edge map are consistent '
  'with the faces (each face\'s three listed edges, with direction flags), no face refers to a missing vertex, the step '
  'limit is respected, and the collected statistics equal the actual counts at each step.',
  ['inputs'],
  'all consistently indexed triangulations (single faces, strips, closed surfaces, non-uniform sizes), all edge bounds, '
  'step limits and adjustment functions',
  'Tests refine a triangle pair and the icosahedron to stored results.',
  [('refinement', TRI + '::shrink_face_tri'), ('edge map', TRI + '::map_face_2_edge'), ('edges', TRI + '::get_face_edge_info')])

p('C24', 'Circle, sphere and tube discretisations are well-formed',
  'Circle discretisation returns exactly the requested number of equally spaced unit vectors over the requested angle range; '
  'sphere triangulations are closed, outward-oriented-consistent surfaces of unit vectors with the vertex and face counts of '
  'their depth, deeper ones containing shallower ones, and the point-count form picks the shallowest depth (at least one) '
  'with enough points. The spread sphere sample returns exactly the requested number of unit vectors, nearest to the z, x and y axes in turn, never opposite pairs, '
  'and the tube triangulations index exactly the points of the tube grid and tile its surface.',
  ['inputs'],
  'all point counts, angle ranges, depths and grid sizes; invalid counts are rejected',
  'Tests check stored small cases; counts around depth switches and the global structure are not checked.',
  [('circle', GEOM + '::circle_part'), ('sphere sample', GEOM + '::sphere_part'), ('sphere', TRI + '::sphere_tri'),
   ('by point count', TRI + '::sphere_tri_ext'), ('icosahedron', TRI + '::icosahedron'), ('tube', TRI + '::ell_tube_2_tri/ell_tube_discr_tri')])

p('C25', 'Triangulation equality and face lookup ignore numbering',
  'Two triangulations compare equal exactly when, up to renumbering of vertices, reordering of faces and reordering '
  'within faces, they have the same vertices within tolerance and the same faces; the report is empty exactly when equal. '
  'Face lookup in a surface (two faces per edge at most) reports exactly which queried triples are faces in any vertex order; tolerant row '
  'sorting returns a permutation of the rows, lexicographically ordered up to the tolerance, with mutually inverse index vectors.',
  ['inputs'],
  'all manifold triangulations, all relabelings, all single-face, single-vertex and count modifications; all matrices with '
  'near-duplicate columns',
  'Tests compare a few stored triangulations.',
  [('comparison', TRI + '::is_tri_equal'), ('face lookup', TRI + '::is_face'), ('row sorting', GEN + '::sort_rows_tol')])

p('C26', 'Support values convert to boundaries and geometric differences exactly',
  'Boundary reconstruction returns for each neighbouring pair (2-D) or face (3-D) of directions the point at which their '
  'supporting lines or planes meet. The geometric difference returns for each direction the exact support value of the largest '
  'set whose support does not exceed the difference of the two supports on the given directions, so it never exceeds '
  'that difference and equals it when the difference is already a support function; invalid sizes and differences '
  'without interior are rejected.',
  ['inputs'],
  'all ordered planar and spatial direction families, all pairs of support functions with positive difference, convex or not',
  'Tests compare ellipsoid and ball supports on regular grids; non-convex differences needing correction across wrap-around are not sampled.',
  [('2-D boundary', SUP + '::sup_2_boundary_2'), ('3-D boundary', SUP + '::sup_2_boundary_3'),
   ('2-D difference', SUP + '::sup_geom_diff_2d'), ('3-D difference', SUP + '::sup_geom_diff_3d')])

p('C27', 'Tolerance comparison of arrays is exact and explains itself',
  'Two equally shaped numeric arrays compare equal exactly when NaNs and signed infinities coincide and every element '
  'differs by at most the absolute tolerance or, when a relative tolerance is given, those exceeding it differ relatively '
  '(twice the difference over the sum of magnitudes) by at most the relative tolerance. The reported maximal absolute and '
  'relative differences are the true ones, the report text is empty exactly when equal, swapping the arguments changes '
  'nothing, and invalid shapes, tolerances or norms are rejected.',
  ['inputs'],
  'all pairs of arrays of any shape, special values anywhere, all tolerances, with and without relative tolerance',
  'Tests compare a dozen literals.',
  [('comparison', COM + '::abs_rel_compare')])

p('C28', 'Dictionary comparison is structural and reports every difference',
  'Two dictionaries (or equally shaped arrays of them) compare equal exactly when they have the same keys and, recursively, '
  'values of the same type and size with numeric contents equal within the tolerances and other contents equal; different '
  'lengths always differ. The answer is per element, the report names every differing top-level key and is empty exactly when '
  'all are equal, and the relation is reflexive and symmetric.',
  ['inputs'],
  'all nested dictionaries of numbers, strings, booleans, None, lists, numeric arrays and dictionaries; single '
  'modifications of them at any depth',
  'Tests compare a few literal structures.',
  [('comparison', DIC + '::dict_compare'), ('element-wise comparison', DIC + '::dict_compare_vec')])

p('C29', 'Symbolic substitution and dependence follow expression meaning',
  'Replacing a variable by an expression in a matrix of formulas gives formulas that evaluate, everywhere, to the original '
  'with the variable\'s value replaced by the expression\'s value; longer names containing the variable\'s name are '
  'untouched, numbers keep their value (to fifteen decimal places) and the matrix keeps its shape. The dependence test answers true exactly when the time '
  'variable (t, or k for discrete systems) occurs as a whole identifier in some entry, and empty or non-text arguments are rejected.',
  ['inputs', 'programs'],
  'all matrices of arithmetic formulas and numbers over identifiers sharing prefixes and suffixes, all replaced names and '
  'replacement expressions',
  'Tests replace t in a few fixed matrices and compare text.',
  [('substitution', SYM + '::var_replace'), ('dependence', SYM + '::is_dependent')])

p('C30', 'Settings histories: last value wins, objects keep what they got',
  'Every configuration getter returns the value last set for that option (or its documented default), independently of all '
  'other options, and snapshots of the configuration are unaffected by later changes. An object takes each '
  'setting from its explicit argument or else from the configuration at creation time and keeps it whatever is changed '
  'later; parsing settings returns values in the order asked for, leaves unrelated arguments and the caller\'s dictionary '
  'intact, and rejects unknown names and invalid values.',
  ['histories', 'configurations'],
  'all interleavings of setting changes, re-initialisation, snapshots, object creation with any subset of explicit '
  'settings, and parsing calls',
  'Tests parse one argument list; no histories.',
  [('configuration store', PRP + '::Properties'), ('parsing', PPR + '::ParsePropMixin.parse_prop'),
   ('per-object settings', ABE + '::ABasicEllipsoid.get_property')],
  state=[dict(name='configuration dictionary', meaning='current value of every option', where=PRP + '::Properties.__conf_repo_mgr')])

p('C31', 'Errors and warnings identify the caller, tag and message',
  'A raised toolbox error is a ValueError (a warning a RuntimeWarning) whose text is the upper-cased colon-separated '
  'module, class and function of the code that raised it, followed by the tag and the message unchanged; the '
  'non-raising form returns the same error, and stepping up names the corresponding outer caller. Caller lookup names the '
  'right frame at every depth from functions, methods and nested functions, and gives empty text beyond the stack.',
  ['programs', 'inputs'],
  'all call chains of functions, methods, static and nested functions of any depth, all step counts, tags and messages',
  'Tests check two or three fixed call shapes.',
  [('errors', COM + '::throw_error'), ('warnings', COM + '::throw_warn'), ('caller lookup', COM + '::get_caller_name/get_caller_name_ext')])

p('C32', 'Logging emits each message once and never changes results',
  'A logger obtained from any code is named after that code and emits every message exactly once with its level and time, '
  'however often the logger was obtained before. With verbosity off computations log nothing; with it on they log, and '
  'their results are identical either way.',
  ['histories', 'configurations'],
  'all histories of obtaining loggers and logging from several callers, all computations that can log, verbosity on and off',
  'No test exercises logging or the verbose branches.',
  [('logger', LOG + '::get_logger'), ('verbose branches', ELL + '::Ellipsoid.minksum_ea/minksum_ia/is_bigger/is_internal')])

p('C33', 'Computations never modify their arguments or the configuration',
  'Apart from the documented in-place projection and the explicit configuration setters, no public operation modifies any '
  'array, dictionary, list or object passed to it, the global configuration, the numeric error state or the random state, whether it '
  'returns or raises an error. This holds for every shape and type of argument the operation accepts.',
  ['inputs', 'histories'],
  'every public operation of the toolbox on every workload of the other properties',
  'No test compares arguments before and after.',
  [('value semantics by copying', ELL + '::Ellipsoid'), ('array helpers', GEN + '::MatVector'), ('numeric helpers', LA),
   ('hyperplanes', HYP + '::Hyperplane')])

p('C34', 'Results depend only on arguments, never on call history',
  'Calling any operation twice with equal arguments under equal configuration gives equal results (or the same error), '
  'whatever calls happened in between and whatever the caller did to earlier results. Arrays and objects returned by '
  'different calls are independent: writing into one result changes no later result '
  '(an operation with nothing to do may hand back its argument).',
  ['histories'],
  'all histories of public operations with results overwritten between calls, and replays in different orders',
  'Each test calls an operation once on fresh data.',
  [('stateless computation', TRI), ('stateless computation', ELL), ('stateless computation', GEN), ('stateless computation', LA)])

p('C35', 'Membership lookup and numeric classification agree with definition',
  'Membership lookup returns, for every element of the first collection, whether it occurs in the second, and for those '
  'that do, in order, the position of the first occurrence. A value is classified numeric exactly when it is, or converts to '
  'an array of, booleans, integers, floats or complex numbers.',
  ['inputs'],
  'all finite collections of numbers or strings with repetitions on both sides; all scalar and array types',
  'Tests check a few literals.',
  [('membership', COM + '::is_member'), ('classification', COM + '::is_numeric')])

p('C36', 'Exports and printed text describe the object and nothing else',
  'The dictionary exported for an ellipsoid holds exactly its shape matrix and centre, for a non-empty hyperplane its unit '
  'normal and the shift along it in the one orientation shared by all equal hyperplanes (shift not negative, for zero shift '
  'the first non-zero coordinate of the normal positive), for an empty one empty arrays; settings are included exactly when asked for and are the '
  "object's own. The accompanying name, description and transformation tables have exactly the exported fields; the "
  'transformations give the positive root of the shape matrix and leave everything else as it is. Printing an object gives '
  'a text naming its class and fields and showing its data, the same for equal copies, and changes neither the object nor '
  'the configuration.',
  ['inputs', 'configurations'],
  'all ellipsoids and hyperplanes with any settings, arrays of them, with and without settings exported',
  'Tests compare exports of a few objects and never look at the tables, transformations or the text.',
  [('ellipsoid export and text', ELL + '::Ellipsoid'), ('hyperplane export and text', HYP + '::Hyperplane')])

p('C37', 'Operations on arrays act element by element in every container',
  'Every operation on an array of ellipsoids or of hyperplanes (volume, trace, extreme eigenvalues, dimension and rank, '
  'emptiness, degeneracy, settings, polar, reflection, projection, copying, export, support function in one direction, point '
  'containment, equality and parallelism) gives at each place exactly what it gives for that object alone: the container (one '
  'object, list, tuple, nested lists, object array of any number of dimensions and memory layout), the place and the '
  'neighbours never matter (apart from the tolerances which equality - the smallest of all objects compared - and the '
  'orthogonality test of projection - the largest - take jointly from all objects), and the results keep the arrangement of the objects (properties that are returned as a flat '
  'list keep row-major order). Results are new objects except for in-place projection, which returns the given objects '
  'themselves. Empty collections give empty results; a collection with any foreign object, or two collections of '
  'different sizes neither of which is a single object, are rejected.',
  ['inputs'],
  'all collections of objects in all containers; an object may occur repeatedly except for in-place projection; support and containment are not defined on '
  'empty collections',
  'Tests use a few arrays of like objects.',
  [('array operations', AEL + '::AEllipsoid'), ('array operations', ABE + '::ABasicEllipsoid'),
   ('array operations', ELL + '::Ellipsoid'), ('array operations', HYP + '::Hyperplane')])

p('C38', 'Only valid hyperplanes exist, isolated from caller arrays',
  'Every hyperplane that can be constructed has a flat finite real normal and a finite real shift, and reports exactly the '
  'numbers it was given, in whatever accepted form: a numeric array that is a vector (flat, row, column) of any numeric type and memory '
  'layout, imaginary parts zero or below machine epsilon being dropped, and a number or one-number array or list as shift (zero if not '
  'given). Its dimension is the length of the normal, except that it is empty, with dimension zero, exactly when it has no '
  'number or a single number as normal and that number and the shift are within the absolute tolerance of zero. Normals that are '
  'not numeric arrays, not vectors or not finite, shifts that are not one finite number, imaginary parts beyond '
  'machine epsilon and invalid tolerances are rejected with an error. Writing into the arrays passed in, or into arrays the '
  'object handed out, never changes the object or its copies.',
  ['inputs', 'histories'],
  'all normals and shifts in every form, valid or invalid, with any tolerance setting, through every constructor, followed by '
  'writes to the caller\'s arrays and to arrays returned by the object',
  'Tests construct a few literal hyperplanes; forms, number types, near-tolerance data and aliasing are not swept.',
  [('validating setters', HYP + '::Hyperplane._normal_vec/_shift'), ('constructor', HYP + '::Hyperplane.__init__'),
   ('other constructors', HYP + '::Hyperplane.from_dict/from_rep_mat'), ('dimension', HYP + '::Hyperplane.dimension'),
   ('complex handling', LA + '::try_treat_as_real')])

p('C39', 'Results follow changes of coordinates and agree between operations',
  'Describing non-degenerate ellipsoids and hyperplanes in rotated, reflected, translated or uniformly scaled coordinates changes nothing '
  'but the description: dimension, rank and degeneracy stay, volume, trace and extreme eigenvalues scale by the power of the factor, '
  'support values and points, negations, external Minkowski sums, polars, projections and boundaries carry over, internal sums carry over under '
  'translation and scaling, and point membership, containment, parallelism and equality give the same answers. Operations '
  'agree with one another: the hyperplane with a direction as normal and the support value as shift contains the support '
  'point and is parallel to the one of the opposite direction; boundary and support points separate members from '
  'non-members; the support function of the polar is the gauge of the original and polars reverse containment; the internal sum '
  'lies in the external sum of the same direction, which commutes with negation and projection; successive projections are one projection.',
  ['inputs', 'histories'],
  'all collections of non-degenerate ellipsoids and hyperplanes in any dimension, all similarity transformations, all chains of these operations',
  'Tests check each operation alone against stored numbers.',
  [('ellipsoid operations', ELL + '::Ellipsoid'), ('ellipsoid characteristics', AEL + '::AEllipsoid'),
   ('hyperplane operations', HYP + '::Hyperplane'), ('numeric kernels', GELL), ('matrix helpers', LA)])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
