prop('C01', 'Data not owned by an operation is never modified',
     'Building, querying, evaluating, exporting or modifying a NURBS object, '
     'running a modelling function or composing a transformation never '
     'changes the contents, shape or item list of any array, list or object '
     'passed in by the caller. An operation modifies at most the object it '
     'is invoked on: earlier copies and clones of it, other operands, and '
     'the arrays it was built from keep their values, and operations that '
     'return a new object leave the receiver unchanged.',
     ['inputs', 'histories'],
     'every public operation, every combination of dimension, clamped or '
     'unclamped axis and argument container, at any position in a sequence '
     'of operations',
     'Tests compare results; an accidental write into shared storage shows '
     'only in data the test does not look at again, and depends on dtype, '
     'contiguity and container type of the arguments.',
     [N, C, T], [('construction copies, in-place operations rebind',
                  N + ' NURBS.__init__, .clone, .copy, .insert ...'),
                 ('modelling functions copy their operands', C),
                 ('kernel results are fresh arrays', Y)],
     'alias and effect analysis: every abstract buffer reachable from the '
     'caller is compared before and after')

prop('C05', 'Knot insertion and refinement preserve the geometry',
     'Inserting a knot, any number of times up to full multiplicity, or '
     'refining with any list of knots inside the domain (sorted or not, '
     'repeated, on existing knots or at the ends of an unclamped axis) '
     'leaves every point and every field value of the object unchanged. The '
     'knot vector afterwards is the sorted union of the old one and the new '
     'knots, the other axes keep their knots and extents, and the same '
     'object is returned.',
     ['inputs'], 'all knot values, weights, control points, fields, inserted '
     'values and evaluation parameters, for curves, surfaces and volumes',
     'Tests insert a handful of values into a few clamped knot vectors and '
     'compare sampled points.',
     [N, F, Y], [('Boehm insertion', F + ' InsertKnot'),
                 ('refinement', F + ' RefineKnotVector'),
                 ('argument checks and axis handling', N + ' insert, refine')],
     'value numbers of the result against Cox-de Boor on every span')

prop('C06', 'Clamping and unclamping preserve the geometry',
     'Clamping either or both ends of any axis, whatever the multiplicities '
     'at the ends, and unclamping a clamped axis with any admissible '
     'continuity, leave every point and field value over the domain '
     'unchanged. After clamping the domain ends have full multiplicity and '
     'interior knots are kept; after unclamping with continuity c the ends '
     'have multiplicity degree - c, the domain is kept and the knots beyond '
     'it repeat the spacing inside the opposite end; the side that was not '
     'asked for is not touched.',
     ['inputs'], 'all knot values, control points, weights, fields, sides '
     'and continuities',
     'Tests check shape properties of the knot vector and a few sampled '
     'points on open uniform knots.',
     [N, F, Y], [('ClampKnot', F + ' ClampKnot'),
                 ('UnclampKnot', F + ' UnclampKnot'),
                 ('one or both sides', N + ' clamp, unclamp')],
     'value numbers of the result against Cox-de Boor on every span')

prop('C07', 'Degree elevation preserves the geometry',
     'Raising the degree of any axis by any number of steps leaves every '
     'point and every field value unchanged and raises exactly that degree '
     'by that number. Every interior knot gains that multiplicity (so '
     'continuity is kept), the domain and the other axes are unchanged, and '
     'elevating by zero changes nothing.',
     ['inputs'], 'all knots (clamped or not), weights, control points, '
     'fields; curves, surfaces and volumes',
     'Tests elevate a few clamped curves by one or two and compare samples.',
     [N, F, Y], [('DegreeElevate', F + ' DegreeElevate'),
                 ('elevate', N + ' elevate')],
     'value numbers of the result against Cox-de Boor on every span')

prop('C08', 'Knot removal undoes insertion and never drops required knots',
     'Removing a knot that was inserted, as many times as it was inserted, '
     'restores the knot vector and the same points and fields; removed fewer '
     'times, the others stay and the points and fields too. Removal '
     'never takes out more occurrences than asked for or than are present, '
     'keeps knots, degree and control points consistent, and leaves the '
     'object as it was when the value is not an interior knot or nothing '
     'can be removed.',
     ['inputs', 'histories'], 'all knots, weights, control points and '
     'fields, any removal count',
     'Tests insert and remove in one or two fixed curves.',
     [N, F, Y], [('RemoveKnot', F + ' RemoveKnot'),
                 ('tolerance and trimming of results', N + ' remove')],
     'value numbers of the result against Cox-de Boor on every span')

prop('C03', 'Transpose, swap, reverse and remap are exact reparametrisations',
     'Transposing (any permutation, default: reversed order), swapping two '
     'axes or reversing any axes only permutes knots and control data: the '
     'result at the correspondingly permuted or mirrored parameters is the '
     'original point with its fields, and a reversed axis keeps its domain. '
     'Remapping maps the knots affinely so that the domain becomes exactly '
     '[start, end] (an omitted end keeps its value, the same domain is a '
     'no-op) and leaves control data and other axes alone; negative axis '
     'numbers count from the end and the same object is returned.',
     ['inputs'], 'all objects of dimension 1 to 3, all permutations, axis '
     'subsets and target intervals',
     'Tests transform a few fixed objects; wrong pairing of knots and '
     'control axes shows only when the axes differ in degree and extent.',
     [N], [('transpose, swap, reverse, remap', N)],
     'value numbers and symbolic index permutations of the result')

prop('C09', 'Slices, extractions and boundaries are restrictions of the map',
     'Slicing an axis to [start, end] gives an object over that interval '
     'with the same points and fields at the same parameters; extracting an '
     'axis at a parameter, in the interior, on a knot of any multiplicity or '
     'at either end of a clamped or unclamped axis, gives the isoparametric '
     'object of one dimension less, and boundary(axis, side) the one at that '
     'end. Fields travel along, other axes keep degree and knots, the '
     'original is not modified.',
     ['inputs'], 'all curves, surfaces and volumes, all intervals and '
     'parameters of the domain, all axes and sides',
     'Tests slice clamped objects at a few interior values and compare '
     'samples; cutting on repeated knots and unclamped ends is not sampled.',
     [N, F], [('slice, extract, boundary', N),
              ('corner cutting', F + ' CornerCut (Extract kernels)')],
     'value numbers of the result against Cox-de Boor on every span')

prop('C10', 'Evaluation is the rational B-spline map of its data',
     'Calling or evaluating an object at any parameters of its domain gives '
     'the point sum(N_i w_i P_i)/sum(N_i w_i), and the same combination of '
     'the stored fields or of any control data passed as fields. Parameters '
     'may be scalars or arrays per axis, in any order, on knots and at both '
     'domain ends; the result has one axis per array argument, none for '
     'scalars, then the components (none for scalar fields). Omitted '
     'parameters are the Greville abscissae.',
     ['inputs'], 'all knots, weights, control points, fields and '
     'parameters; all mixtures of scalar, array and omitted arguments',
     'Tests evaluate a few objects at random parameters, mostly polynomial '
     'ones, and rarely at knots or with mixed argument shapes.',
     [N, F, Y], [('__call__, evaluate', N),
                 ('Evaluate kernels, FindSpan, BasisFuns', F)],
     'value numbers of the result against Cox-de Boor')

prop('C11', 'Derivatives are those of the rational B-spline map',
     'gradient, hessian and derivative(1..4) of the points, of the stored '
     'fields or of any control data passed in are the exact parametric '
     'partial derivatives of the rational map at every parameter of the '
     'domain, one-sided from the right at knots (from the left at the last '
     'one). The result is shaped parameters + components + one axis of '
     'extent dim per order, and entry (i, j, ...) is d/du_i d/du_j ...',
     ['inputs'], 'all knots, weights, control points, data and parameters',
     'Tests check that derivatives of linear functions are constant or '
     'zero, almost always with unit weights.',
     [N, F, Y], [('gradient, hessian, derivative', N),
                 ('DersBasisFuns, TensorProd, Rationalize', F)],
     'value numbers of the result against the quotient rule over Cox-de '
     'Boor derivatives')

prop('C12', 'Mapped gradients satisfy the chain rule',
     'With mapped=True (or any true value) the gradient (and derivative(1)) '
     'of any data is the '
     'gradient with respect to the physical coordinates x, y, z of the '
     'first dim components: multiplied by the Jacobian of the geometry it '
     'gives the parametric derivative, for points, stored fields and given '
     'data. Mapped derivatives of order two or more are refused, not '
     'returned unmapped.',
     ['inputs'], 'all rational geometries with regular Jacobian, data and '
     'parameters, dimensions 1 to 3',
     'Tests use mapped gradients only of the identity on straight '
     'geometries, where transposed or misassigned Jacobians go unnoticed.',
     [N, F], [('mapped branch', N + ' gradient, hessian, derivative'),
              ('GeometryMap, Inverse, Determinant', F)],
     'value numbers of gradient x Jacobian against parametric derivatives')

prop('C15', 'A transform acts as the composition of what was applied to it',
     'Applying a transform to homogeneous points gives the product of the '
     'operations recorded in it, in the order of the calls: translation '
     '(move), per-axis or uniform scaling, right-handed rotation about a '
     'coordinate axis or any non-zero vector, composition with a 3x3 or 4x4 '
     'matrix or another transform. Missing components mean no effect on '
     'those axes. invert (in place) and inverse undo the transform; copies '
     'are independent; zero rotation axes and misshaped matrices or vectors '
     'are refused.',
     ['inputs', 'histories'], 'all displacements, factors, angles, axis '
     'directions and lengths, matrices and points; scalar, list, tuple and '
     'array arguments of one to three components; pairs of operations',
     'Tests compare a few random transforms with each other; a wrong sign '
     'or order that is consistent between them is not seen.',
     [T], [('transform', T + ' translate, scale, rotate, compose, invert, '
                          '__call__')],
     'value numbers of the transformed point against the matrix of the '
     'operation',
     note='Arguments are arbitrary numbers of fixed sign; containers and '
     'argument extents are enumerated.')

prop('C16', 'Transforming an object maps its points and keeps the rest',
     'translate (move), scale, rotate and transform of a NURBS object map '
     'every point by exactly that affine map, whatever the weights. '
     'Weights, field values, knots and extents are unchanged and the same '
     'object is returned, so transformations chain.',
     ['inputs'], 'all control points, weights, fields, knots and parameters; '
     'all displacements, factors, angles and affine matrices, for curves, '
     'surfaces and volumes, clamped or not',
     'Tests apply transformations to objects with unit weights mostly and '
     'never look at the fields afterwards.',
     [N, T], [('transform, translate, rotate, scale', N),
              ('transform', T)],
     'value numbers of control data and of the rational map before and '
     'after')

prop('C17', 'Circles and lines are exact',
     'circle(radius, center, angle) is an exact circular arc: every point '
     'is at distance radius from the center in the plane of the center, '
     'parametrised on [0, 1], with clamped knots, from the start to the '
     'end angle, passing the '
     'sweep in equal parts at the breaks and their midpoints, with positive '
     'weights, for single angles, pairs (missing ones being zero and two '
     'pi), either orientation and any quadrant. line(p0, p1) is the '
     'straight segment, affine in its parameter, on clamped knots.',
     ['inputs'], 'all radii, centers, start and end angles of sweeps up to '
     'a full turn, all parameters, points of one to three components',
     'Tests use a few multiples of a right angle and compare sampled '
     'radii; orientation, the start angle and the parametrisation are '
     'hardly looked at.',
     [C], [('circle', C + ' circle'), ('line', C + ' line')],
     'value numbers of the arc, angles as elements of the circle group of '
     'the field',
     note='Angles are arbitrary within each quadrant, and all multiples of '
     'pi/4.')

prop('C18', 'Patches and grids interpolate their data',
     'linear, bilinear and trilinear return the multilinear interpolation '
     'of their corner points (homogeneous ones included), the unit segment, '
     'square and cube centred at the origin by default. grid(shape, degree, '
     'continuity, limits, wrap) is the identity map of the box given by '
     'limits, with equal elements, the requested degree, continuity '
     '(negative ones counted from the degree) and, along wrapped axes, '
     'periodic knots. Inconsistent arguments are refused.',
     ['inputs'], 'all corner points, limits and parameters, one to three '
     'axes, degrees to 4, every continuity, wrapped or not, scalar or '
     'per-axis arguments in lists, tuples or arrays',
     'Tests check shapes and knots of a few calls.',
     [C], [('linear, bilinear, trilinear', C), ('grid', C + ' grid')],
     'value numbers of the map against multilinear interpolation',
     note='Points and limits are arbitrary; shapes, degrees, continuities '
     'and containers are enumerated.')

prop('C19', 'Extrusion and sweep add a trajectory to every point',
     'extrude(nurbs, displ, axis) gives an object with one more axis, of '
     'domain [0, 1] and clamped, whose point at (u, v) is the point at u plus v times '
     'the displacement; sweep(section, trajectory) one whose point at '
     '(u, v) is the sum of both points, with exact rational weights. The '
     'knots of the operands are kept, operands with too many axes are '
     'refused.',
     ['inputs'], 'all rational curves and surfaces, with or without fields, '
     'clamped or not, all displacements given as scalar and axis or as '
     'array, list or tuple of one to three components, all trajectories and '
     'parameters',
     'Tests compare control points of polynomial operands.',
     [C], [('extrude', C + ' extrude'), ('sweep', C + ' sweep')],
     'value numbers of the points against sums of operand points')

prop('C20', 'Ruled and Coons surfaces interpolate their operands',
     'ruled(a, b) is the object with straight rulings joining equal '
     'parameters of a and b over their common domain, equal to a at 0 and '
     'to b at 1, whatever their degrees, knots and domains. coons(curves) '
     'interpolates its four boundary curves, each on the side it was given '
     'for, and is bilinear for straight sides. Operands of different or '
     'unsuitable dimension, or curves that do not meet, are refused.',
     ['inputs'], 'all rational curves and surfaces of the listed degrees '
     'and knots, clamped, unclamped or mixed, all parameters',
     'Tests build a few surfaces and evaluate corners.',
     [C, N], [('ruled', C + ' ruled'), ('coons', C + ' coons'),
              ('compat', C + ' compat')],
     'value numbers of the boundaries and rulings against the operands',
     note='Control points, weights and parameters are arbitrary; degrees '
     'and knots (including knot values, where operands or ends differ) are '
     'enumerated.')

prop('C22', 'Revolving rotates every point about the axis',
     'revolve(nurbs, point, axis, angle) gives an object with one more '
     'axis, parametrised like circle(angle=angle), whose point at (u, v) is '
     'the point at u rotated, right-handed, about the line through point '
     'along axis by the angle of the arc at v; at the start angle 0 it is '
     'the object itself. The axis is a coordinate axis or any non-zero '
     'vector, also opposite to a coordinate axis; points on the axis stay '
     'fixed; the other knots are kept.',
     ['inputs'], 'all rational curves and surfaces, all positions and '
     'directions of the axis, all angles and pairs of angles, all '
     'parameters',
     'Tests revolve two or three simple objects about coordinate axes and '
     'compare bounds of the radius.',
     [C, T], [('revolve', C + ' revolve'), ('circle', C + ' circle'),
              ('rotation to and from the z axis', T + ' transform')],
     'value numbers of the points against Rodrigues\' formula',
     note='Points, weights, axis position, direction and angles are '
     'arbitrary, one sign pattern of the axis and one quadrant of the angle '
     'per obligation.')

prop('C21', 'Joining keeps both pieces',
     'join(a, b, axis) of two objects that share the interface (the end of '
     'a along axis and the start of b, up to a common factor of the '
     'weights) is one object that is a on the domain of a and b, shifted '
     'to start there, on the rest, points and fields, whatever their '
     'degrees, knots, clamping and parametrisation; joining both parts of '
     'a cut object gives the object back. Objects of different dimension '
     'and axes out of range are refused.',
     ['inputs'], 'all rational curves, surfaces and volumes of the listed '
     'templates, all cutting parameters, interface weights and fields',
     'Tests join two or three polynomial objects and look at the shape.',
     [C, N], [('join', C + ' join'), ('compat', C + ' compat'),
              ('clamp, elevate, remap, remove', N)],
     'value numbers of the joined map against both operands; removal within '
     'the tolerance is not followed')

prop('C31', 'compat gives equal degrees and knots without moving anything',
     'compat(a, b, ...) returns one new object per operand, with, along the '
     'chosen axes, the common domain (lowest start to highest end), the '
     'highest degree and the union of the knots with the highest '
     'multiplicities, and no more; every object keeps its map, points and '
     'fields, up to the affine change of domain. Other axes and the '
     'operands are untouched; operands of different dimension and unknown '
     'keywords are refused.',
     ['inputs'], 'all control points, weights, fields and parameters; two '
     'or three operands with the listed degrees and knots, clamped, '
     'unclamped or mixed, also over the '
     'same arbitrary breakpoints, called with objects or a sequence, all '
     'choices of axes',
     'Tests look at degrees and knot vectors of one pair of curves.',
     [C, N], [('compat', C + ' compat'),
              ('remap, elevate, refine, breaks', N)],
     'value numbers of knots and maps against the operands')

prop('C32', 'cad.refine splits elements without moving anything',
     'refine(nurbs, factor, degree, continuity) returns a new, clamped '
     'object with the same points and fields. Every element of an axis is '
     'split in factor equal ones (one factor for all axes, one per axis, or '
     'one per element), the degree is raised to degree if that is higher, '
     'and every knot gets the multiplicity of the requested continuity '
     '(negative ones counted from the degree, the highest by default) '
     'unless it already has more. Inconsistent arguments are refused.',
     ['inputs'], 'all knots, control points, weights, fields and '
     'parameters, curves, surfaces and volumes, clamped or not, all '
     'mixtures of scalar, per-axis and per-element arguments',
     'Tests call it once or twice and check shapes.',
     [C, N], [('refine', C + ' refine'), ('clamp, elevate, refine, breaks',
                                          N)],
     'value numbers of knots and map against the operand')

prop('C33', 'Answers depend only on the present knots and control data',
     'Whatever an object was asked or put through before - queries, in-place '
     'operations on it, on its clones or on other objects, values written '
     'through its array and knots - dim, shape, degree, points, weights, '
     'fields, breaks, spans, greville, lagrange, lobatto, evaluation, '
     'derivatives and boundaries are those of a new object built from '
     'copies of its present knots and control data; a clone made earlier '
     'keeps answering for the state it was made from, and results already '
     'returned by queries (not views of the data) do not change. So for '
     'transforms, and a modelling function called again with equal '
     'arguments builds an equal object whatever became of the first.',
     ['inputs', 'histories'], 'all knots, control points, weights, fields '
     'and arguments on the templates; every in-place method after a full '
     'round of questions, pairs of methods, several objects in turn, '
     'repeated modelling calls',
     'Tests build a new object for nearly every assertion, so state kept '
     'between calls goes unseen.',
     [N, 'igakit/transform.py', C], [
         ('every method and property of NURBS', N),
         ('transform', 'igakit/transform.py'), ('modelling functions', C)],
     'value numbers of all answers against those of an equal new object')

prop('C23', 'PetIGA files follow the format and round-trip',
     'PetIGA.write stores identifier, flags, degrees, knots, homogeneous '
     'control points (the first nsd coordinates and the weight) and field '
     'values, big-endian in the chosen precision, scalar and index types, '
     'component fastest, then the first axis; read gives back the same '
     'knots, points, weights and fields, with Greville points where no '
     'control data is stored. Vectors and matrices likewise. Wrong '
     'identifiers, truncated files and nsd below the dimension or above '
     'three are refused; files '
     'are closed whichever access fails.',
     ['inputs', 'faults'], 'all objects of the templates, every type '
     'combination, every combination of stored parts, vectors with or '
     'without object, small sparse matrices, a failure at each of the first '
     'eight accesses',
     'Tests write and read with the same code, so a wrong layout that both '
     'share goes unnoticed, and never let an access fail.',
     [IO], [('write, read', IO + ' PetIGA'),
            ('write_vec, read_vec, read_mat', IO + ' PetIGA')],
     'items of the abstract file (type and value number) against the '
     'format description; typestate of the file handles')

prop('C24', 'VTK files describe the sampled geometry',
     'VTK.write produces a legacy VTK file whose header, dimensions and '
     'counts match its big-endian data: the points of the object on the '
     'tensor grid of breaks (or of the sampler applied to them), first axis '
     'fastest, or the grid axes alone with control=False; then every '
     'requested scalar and vector (padded with zeros) of the stored fields '
     'or of the fields given, in the order given or sorted for '
     'dictionaries, with their names. The file is closed, arguments are '
     'kept, components out of range are refused before writing.',
     ['inputs'], 'all rational objects of the templates with fields, all '
     'attribute lists shown, three samplers, knots of any multiplicity',
     'Tests call write and never look into the file.',
     [IO, N], [('write', IO + ' VTK')],
     'items of the abstract file (type and value number) against the '
     'format description')

prop('C02', 'An object holds exactly the data it was built from',
     'NURBS(knots, control, fields, weights) accepts control data with two, '
     'three or four (homogeneous) components, weights as a separate argument '
     'or paired with the control data, scalar or vector fields, as arrays '
     'of any memory order, lists, tuples or integers. dim, shape, degree, '
     'knots, points, weights, control, array and fields then read back that '
     'data, missing coordinates as 0 and missing weights as 1, and the '
     'object evaluates to the map they define. With knots alone (clamped) it '
     'is the identity map. Inconsistent ranks and extents are refused.',
     ['inputs'], 'all values, every combination of components, weight form, '
     'field form and container on the templates in one to three dimensions; '
     'the listed inconsistent combinations',
     'Tests build a few objects with one argument form each; swapped '
     'axes, misplaced weights and silent broadcasting show only for '
     'particular combinations of extents.',
     [N, F], [('constructor', N + ' NURBS.__init__'),
              ('properties', N + ' NURBS.points, weights, fields ...')],
     'value numbers of every property read against the constructor '
     'arguments')

prop('C13', 'Out-of-range arguments are refused and change nothing',
     'Parameters or knot values outside the domain of the axis, knot '
     'multiplicities beyond the degree, empty or reversed intervals, '
     'negative counts, axes, sides, continuities and derivative orders out '
     'of range, permutations that are none, and data of the wrong extents '
     'are refused with an exception by every method, never extrapolated, '
     'wrapped around or broadcast. A refused call leaves the object, its '
     'knots and control data and the arguments exactly as they were.',
     ['inputs', 'faults'], 'every method with every listed class of bad '
     'argument, on every axis, for clamped and unclamped axes, any values '
     'within the class',
     'Tests check a handful of raised exceptions, and not the state of the '
     'object afterwards.',
     [N, Y], [('argument checks', N + ' Arg, insert, refine, slice, remap'),
              ('checks in the signatures', Y)],
     'abstract exceptions on every path, then comparison of the abstract '
     'state before and after')

prop('C27', 'Queries describe the knots exactly',
     'breaks() are the distinct knots of the domain in order, and with '
     'mults=True come with their multiplicities (at most the degree, also '
     'at the ends of unclamped axes). spans() are the indices k of the '
     'nonempty knot spans, one per element. greville() are the averages of '
     'degree consecutive knots, one per control point. lagrange() and '
     'lobatto() are the equispaced and the Gauss-Lobatto nodes of the '
     'degree mapped into every element, shared at the breakpoints. Without '
     'axis the results of all axes are listed.',
     ['inputs'], 'all knot values of the templates: degrees 1 to 7, any '
     'multiplicities, clamped, unclamped and partly clamped',
     'Tests query open uniform knots, where wrong handling of multiplicity '
     'or of unclamped ends is invisible.',
     [N, F, Y], [('breaks, spans, greville, lagrange, lobatto', N),
                 ('SpanIndex, FindMult, Greville', F),
                 ('CountSpans', Y)],
     'value numbers of the results against the knots')

prop('C28', 'The basis kernels compute B-spline functions and derivatives',
     'For every degree, knot vector and parameter of the domain, both ends '
     'included, FindSpan, FindMult, FindSpanMult and SpanIndex give the '
     'nonempty span containing the parameter and its multiplicity; '
     'EvalBasisFuns, EvalBasisFunsDers, BasisData and BasisDataCol give the '
     'values and derivatives of the B-spline basis functions of that span '
     'in their documented order, with the right offsets, jacobians, points '
     'and weights; Greville gives the knot averages; KnotVector the uniform '
     'knots of the requested degree, continuity, ends and periodicity. '
     'Arguments out of range are refused.',
     ['inputs'], 'all knot values and parameters of the templates up to '
     'degree 7, all derivative orders up to the degree, several numbers of '
     'quadrature points',
     'Tests evaluate fixed knot vectors at fixed points; errors at repeated '
     'knots, at the right end, or in higher derivatives escape.',
     [F, Y], [('FindSpan, BasisFuns, DersBasisFuns', F + ' bspline'),
              ('BasisData, BasisDataCol, KnotVector', F + ' IGA'),
              ('extents and defaults', Y)],
     'value numbers of the kernel results against the Cox-de Boor and '
     'derivative recurrences')

prop('C29', 'Gauss rules integrate polynomials exactly',
     'GaussLegendreRule(q), q = 1..10, returns the q roots of the Legendre '
     'polynomial in increasing order with weights that integrate every '
     'polynomial of degree 2q-1 over [-1,1]; GaussLobattoRule(q), q = 2..10, '
     'the q Lobatto nodes, ends included, with weights exact up to degree '
     '2q-3; nodes and weights are correct to double precision. Other q are '
     'refused.',
     ['inputs'], 'every supported q, every polynomial degree in range',
     'Tests check sums or one integrand; a wrong digit stays below their '
     'tolerance or affects one q only.',
     [F, Y], [('tables', F + ' GaussLegendreRule, GaussLobattoRule'),
              ('admissible q', Y)],
     'constant propagation through the tables, compared in rational '
     'arithmetic with roots computed from the Legendre recurrence',
     note='Every q is covered; the tables are evaluated to exact rational '
     'constants.')

prop('C30', 'Plots show the control net, the knot lines and the geometry',
     'The plotter hands to its backend, and the matplotlib backend draws: '
     'the control points projected to space and the edges of the control '
     'net (cpoint, cwire, cplot); the points, lines and surfaces at the '
     'distinct knots of the domain of the chosen axes (kpoint, kwire, kplot, '
     'ksurf); the curve, the surface, the bounding curves of a surface and '
     'the bounding faces of a volume (curve, surface, volume, plot), sampled '
     'over the whole domain at equispaced parameters of the resolution. '
     'Points and vectors of one to three components are padded with zeros. '
     'Objects are left unchanged. Options given are handed on (the line '
     'modes line and tube as a representation), those matplotlib does not '
     'know are kept from it; other line modes and points of more than three '
     'components are refused. Every backend provides all the drawing '
     'operations the plotter uses; unknown names are refused.',
     ['inputs'], 'all knots, weights and control points of the templates; '
     'curves, surfaces and volumes, clamped and unclamped; every backend',
     'No test draws anything: the plotting modules are not covered at all.',
     [PL, 'igakit/plot_mpl.py', 'igakit/plot_myv.py', 'igakit/plot_nul.py',
      N, F, Y],
     [('what is drawn', PL + ' Plotter'),
      ('matplotlib', 'igakit/plot_mpl.py'),
      ('mayavi grids', 'igakit/plot_myv.py _extract_grid_lines, '
       '_extract_grid_polys'), ('no drawing', 'igakit/plot_nul.py')],
     'value numbers of the arrays that reach the recorded calls of the '
     'backends and of a stand-in for matplotlib',
     note='The plotting libraries are replaced by recorders that accept '
     'every call; how they render is out of scope.')

prop('C25', 'Kernels stay within their arrays and set every result',
     'No kernel of igalib, called with parameters of the domain and with '
     'multiplicities, continuities and spans that the axis admits, reads or writes outside the extents of its arrays, uses a variable or '
     'element before it is set, leaves an element of a result unset, or '
     'writes to an input array.',
     ['inputs'], 'every kernel, on every template of degree, multiplicities '
     'and dimension, parameters inside spans, on knots and at the ends, all '
     'option values; every abstract path',
     'An access one past the end usually hits mapped memory, so tests pass; '
     'which element is hit depends on multiplicities and position.',
     [F, Y], [('kernels', F), ('extents', Y)],
     'definite assignment and bounds of every array access along every path '
     'of the Fortran sources')

prop('C26', 'Kernel signatures agree with the Fortran code',
     'Every signature that Python sees agrees with the subroutine behind '
     'it: number, order, type and precision of the arguments, which are '
     'read and which are set, and the extents and memory order of every '
     'array for all sizes. An optional argument left out means its natural '
     'default: the span is searched for, one knot is inserted or removed, '
     'both ends are clamped or unclamped, the continuity is degree - 1, the '
     'interval is [0, 1] without wrapping, the derivatives go up to the '
     'degree and the points number degree + 1. All kernels used by the '
     'package exist, and all real variables of the kernels are double '
     'precision.',
     ['inputs'], 'every signature; extents as polynomials in the size '
     'arguments, so for all sizes',
     'The build does not compare the two declarations; a disagreement '
     'corrupts memory or loses precision only for some sizes or values.',
     [Y, F], [('signatures', Y), ('declarations', F)],
     'type and extent checking of the two sets of declarations against each '
     'other',
     note='Complete for the declarations compared: no bound on sizes; the '
     'defaults are compared on two templates.')

prop('N01', 'Results are accurate to rounding error',
     'Evaluation, knot operations and modelling functions return values '
     'whose error is a small multiple of the unit roundoff times the '
     'condition of the operation.',
     ['inputs'], 'all floating-point inputs',
     'Tests compare with tolerances chosen for a few benign inputs.',
     [N, F], [('arithmetic', F)], 'none')

prop('N02', 'Knot removal honours its tolerance on perturbed data',
     'remove(deviation) removes a knot exactly when the geometry moves by '
     'no more than the deviation.',
     ['inputs'], 'all control points, weights and deviations',
     'Tests use a few exact cases.',
     [N, F], [('removal test', F + ' RemoveKnot')], 'none')

prop('N03', 'Figures show what was drawn',
     'The picture rendered by matplotlib or mayavi shows the arrays handed '
     'to it.',
     ['inputs'], 'all plots',
     'Tests draw nothing.',
     [PL], [('backends', 'igakit/plot_mpl.py')], 'none')
