#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
N = 'blmath/numerics/'
G = 'blmath/geometry/'
T = 'blmath/geometry/transform/'
PR = 'blmath/geometry/primitives/'

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, note=note, observe=observe, technique=technique))


prop('C01', 'Composite transforms: order, ranges, inverses and matrix agree',
     'A composite transform applies its scales, translations, rotations, unit conversions and matrices in the '
     'order appended, the reverse call undoes them in the opposite order so that a round trip restores every point, and a '
     'from_range applies or undoes exactly the transforms from start up to but not including stop. The 4x4 matrix returned '
     'for a range and direction is affine and acts on every point as the call does. Appending returns the index of the '
     'new transform, non-positive scale factors and matrices of the wrong shape raise ValueError, and points are unaltered.',
     'all points, all parameters, sequences of up to four (and twelve) transforms of the listed kinds, all ranges, both directions',
     'Inverses and ordering are algebraic identities over all parameters and all ranges; tests use one or two transforms.',
     [T + 'composite.py'],
     [('call', T + 'composite.py:CompositeTransform.__call__'), ('matrix', T + 'composite.py:CompositeTransform.matrix_for'),
      ('homogeneous points', 'blmath/numerics/vector_shortcuts.py:apply_homogeneous')], over=('inputs', 'histories'))

prop('C02', 'Coordinate manager: tagged frames convert into each other consistently',
     'Points set at one tag and read at another are the points carried through, or back through, exactly the transforms '
     'between the two tags, whatever the order of the tags; reading the tag that was set, or going through a third tag, '
     'changes nothing. Tags at the same position are aliases, a tag given again names the new position, appending later '
     'transforms moves no existing tag, and setting replaces the earlier points. Meshes come back as copies with '
     'transformed vertices, the original untouched; every kind of transform can be appended, by position or by name; unknown tags raise KeyError when read and AttributeError when set.',
     'all points, 1 to 4 transforms with a tag at every position, every pair of tags',
     'Any pair of tags and any history of tagging has to agree; tests set and read one fixed chain.',
     [T + 'coordinate_manager.py'],
     [('reading a tag', T + 'coordinate_manager.py:CoordinateManager.__getattr__'),
      ('tagging', T + 'coordinate_manager.py:CoordinateManager.tag_as')], over=('inputs', 'histories'))

prop('C03', 'Reorientation matrices are rotations taking up to +y and look to the y-z plane',
     'For any up and look that are neither zero nor colinear, however long and however skewed, rotation_from_up_and_look '
     'returns an orthonormal matrix of determinant +1 which takes up to the +y axis and look into the half of the y-z plane '
     'with positive z. Zero or colinear arguments raise ValueError. Reorienting a composite transform or a coordinate '
     'manager applies that rotation, and its reverse the transpose.',
     'all real and integer up and look vectors at an angle above 1e-6 (floating point) of each other',
     'The tests use a handful of axis-aligned vectors, for which most sign or ordering mistakes do not show.',
     [T + 'rotation.py', T + 'composite.py', T + 'coordinate_manager.py'],
     [('rotation', T + 'rotation.py:rotation_from_up_and_look'), ('reorient', T + 'composite.py:CompositeTransform.reorient')])

prop('C04', 'Rotation vectors, rotation matrices and Euler angles convert consistently',
     'For every rotation vector r, rodrigues gives the rotation by |r| radians about r (the identity for zero), applied to '
     'that matrix it gives r back for angles below a half turn, and for exact half turns it gives plus or minus pi times '
     'the axis. as_rotation_matrix keeps rotation matrices, takes positive multiples to the nearest rotation, and expands '
     'vectors; bad shapes are refused. Euler angles compose the turns about the listed axes, first axis first, in degrees or radians.',
     'all rotation vectors and axes, angles with a sine above 1e-5 (or exact half turns, or zero)',
     'Trigonometric identities over all angles and axes; tests use a few vectors and compare stored numbers.',
     [T + 'rodrigues.py', T + 'rotation.py'],
     [('vector to matrix and back', T + 'rodrigues.py:rodrigues'), ('coercion', T + 'rodrigues.py:as_rotation_matrix'),
      ('euler', T + 'rotation.py:euler')],
     note='The SVD is answered by its contract for the matrices the code decomposes.')

prop('C05', 'Rigid registration recovers the motion that was applied',
     'Whenever one point set is a rotated and translated copy of the other, find_rigid_transform returns a proper rotation '
     'and translation which carry the first onto the second, also for planar, colinear and coincident points and in both '
     'layouts; for points in general position that is the motion applied, for noisy ones no other rotation fits better in '
     'the least squares sense and the centroid is carried to the centroid. Mirrored copies raise ValueError when asked to. '
     'find_rigid_rotation does the same about the origin, with allow_scaling recovering the factor.',
     'all rotations, translations and factors; 1 to 4 points in general, planar, colinear or coincident position; all SVD '
     'sign choices',
     'Degenerate configurations and arbitrary SVD signs are not reached by the few random samples in the tests.',
     [T + 'rigid_transform.py'],
     [('rigid transform', T + 'rigid_transform.py:find_rigid_transform'),
      ('rigid rotation', T + 'rigid_transform.py:find_rigid_rotation')],
     note='The SVD is answered by its contract: any decomposition that satisfies it.')

prop('C06', 'Vector shortcuts project, reject and normalize exactly, row by row',
     'For every nonzero vector, normalizing gives the same direction with length one, and for every vector and nonzero '
     'target the projection is the orthogonal projection onto the target line, the scalar projection is its signed '
     'length, the rejection is the perpendicular remainder, and rescaling the target changes neither projection nor '
     'rejection. A 2-d stack of vectors gives, row for row, what the single-vector call gives, and rejecting an axis '
     'zeroes (or with squash drops) exactly that component. The almost-zero and almost-collinear tests compare every '
     'component, respectively the cross product length, with the given tolerance, and no call alters its arguments.',
     'all real 3-vectors, stacks of 1 to 5 rows (and of 70 and 300, one of them any), integer and float arrays, all tolerances',
     'The identities are over all reals and all stack sizes; the tests use a few axis-aligned or small-integer vectors.',
     [N + 'vector_shortcuts.py'],
     [('normalize/magnitude', N + 'vector_shortcuts.py:normalize'), ('projection', N + 'vector_shortcuts.py:proj'),
      ('axis rejection', N + 'vector_shortcuts.py:reject_axis')])

prop('C07', 'Angles between vectors: cosine law, range, sign by look direction',
     'For any two nonzero 3-vectors, angle() is the value in [0, 180] degrees whose cosine is u.v/(|u||v|); it is symmetric, '
     'ignores lengths, and becomes the supplement when one vector is reversed. signed_angle() has the same cosine and '
     'absolute value, is negative exactly when the cross product u x v points against the look vector, and turning u by '
     'theta around the look axis gives theta for every theta in (-180, 180). Swapping the vectors or looking from behind '
     'negates the signed angle.',
     'all pairs of nonzero real 3-vectors and all look vectors, parallel and opposite vectors included',
     'Transcendental identities over all vectors; tests use a handful of axis-aligned pairs.',
     [N + 'vector_shortcuts.py'],
     [('angle', N + 'vector_shortcuts.py:angle'), ('signed angle', N + 'vector_shortcuts.py:signed_angle')])

prop('C08', 'Plane signed distance, side test, selection and projection agree',
     'For every plane and every point, the signed distance is the dot product of the offset from the plane with its unit '
     'normal whatever the length of the normal given; distance is its absolute value, and the sign is +1 in front, -1 '
     'behind and 0 on the plane. Selecting the points in front returns, in order, exactly the points (or their indices) '
     'with sign >= 0, and inverted exactly those with sign <= 0. Projecting a point lands on the plane, moves it along the '
     'normal by exactly its distance, and does nothing the second time; a flipped plane negates every signed distance.',
     'all planes with a non-tiny normal and all stacks of 1 to 3 points (and of 70 and 300, one of them any), including points exactly on the plane',
     'Depends on real-valued arithmetic and on ties at distance zero; tests use one axis-aligned and one diagonal plane.',
     [PR + 'plane.py'],
     [('signed distance', PR + 'plane.py:Plane.signed_distance'), ('selection', PR + 'plane.py:Plane.points_in_front'),
      ('projection', PR + 'plane.py:Plane.project_point')])

prop('C09', 'Planes built from points, vectors, samples and equations are the right planes',
     'A plane built from three points, or two points and a vector, contains them, has a unit normal oriented by the right '
     'hand rule, and keeps the first point as reference; colinear points, parallel vectors, zero normals and wrong shapes '
     'raise ValueError. Its equation coefficients evaluate to the signed distance at every point, and its canonical point '
     'is the foot of the perpendicular from the origin whichever reference point was used. Flipping reverses the normal '
     'and equation only; the best-fit plane passes through the centroid across the direction of least variance.',
     'all points, vectors and normals not nearly degenerate; best fits of any 4 points with distinct variances',
     'Identities over all planes; tests check one or two integer examples each.',
     [PR + 'plane.py'],
     [('construction', PR + 'plane.py:Plane.from_points'), ('equation', PR + 'plane.py:Plane.equation'),
      ('fitting', PR + 'plane.py:Plane.fit_from_points')],
     note='The PCA and eigenvectors behind the fit are answered by their contract.')

prop('C10', 'Line and segment against plane: right point, right decision, batched = single',
     'For every plane and line, the reported intersection is the one point that lies on both, and none is reported '
     'exactly when the line is parallel to the plane. A segment is reported to intersect exactly when the plane meets it '
     'between its end points inclusive, however its coordinates are ordered. The batched calls return, row for row, the '
     'same points and the matching validity flags, with NaN rows for no intersection, and alter no argument.',
     'all planes, all lines and segments, batches of 1 to 3, 70 and 300 (parallel, degenerate and touching ones included)',
     'The decision has several boundary cases per coordinate; tests use a couple of planes with hand-picked segments.',
     [PR + 'plane.py'],
     [('line', PR + 'plane.py:Plane._line_xsection'), ('segment', PR + 'plane.py:Plane._line_segment_xsection'),
      ('batched', PR + 'plane.py:Plane.line_segment_xsections')])

prop('C11', 'Cross sections of meshes follow the crossed faces, one polyline per part',
     'Where no vertex lies on the plane, mesh_intersecting_faces lists exactly the faces with vertices on both sides, and '
     'mesh_xsections returns one polyline per connected part of the section, running face by face through the intersection '
     'point of every crossed edge exactly once, closed where the mesh closes around it and open where it meets the boundary. '
     'mesh_xsection strings all parts in one closed polyline, which is empty when the plane misses the mesh. Given a neighborhood, both '
     'return the single part whose points are on average closest to it. The mesh is not altered.',
     'eight meshes of up to 8 vertices (open, closed, in several parts), one of 300 vertices, with any vertex positions off the plane; one tilted normal, '
     'axis-parallel planes on an integer grid, any plane for one triangle; any neighborhood of one point, two points on a line',
     'Chaining of segments depends on which faces are cut and in what order; tests cut one box and stacks of boxes.',
     [PR + 'plane.py'],
     [('sections', PR + 'plane.py:Plane.mesh_xsections'), ('crossed faces', PR + 'plane.py:Plane.mesh_intersecting_faces')])

prop('C12', 'Polyline edges, lengths, copies and reindexing stay consistent',
     'After any sequence of assigning vertices, opening, closing, copying, reindexing and subdividing, a polyline has an '
     'edge between consecutive vertices, plus the closing edge exactly when closed; segments, segment vectors, segment '
     'lengths and total length match those edges. Copies share no state with the original, operations change neither the array a '
     'polyline was made from nor other polylines made from it, and inputs of any number kind '
     'are accepted, wrong shapes refused. Reindexing a closed polyline starts at the vertex asked for, keeps the cyclic '
     'order and maps the edges; the apex is a vertex furthest along the axis.',
     'all vertex coordinates, 0 to 5 vertices (7 thorough; 70 and 300 with one anywhere), open and closed, sequences of up to 3 operations',
     'Cached edge arrays must follow every history of operations; tests perform one operation each.',
     [PR + 'polyline.py'],
     [('edges', PR + 'polyline.py:Polyline._update_edges'), ('reindexing', PR + 'polyline.py:Polyline.reindexed')],
     over=('inputs', 'histories'))

prop('C13', 'Subdividing keeps the shape and respects the maximum segment length',
     'partition_by_length keeps every original vertex, in order and at the indices returned, divides each edge into the '
     'smallest number of equal parts not longer than max_length, and keeps the total length and the open or closed state. '
     'partition_segment returns n equidistant points from the first end point, the second one included unless endpoint is '
     'False; partition divides every segment of a point list, repeated points included, into equal parts. Counts below two and counts that are not '
     'integers are refused.',
     'all polylines of 2 to 4 vertices with edges of up to 4 times max_length, repeated vertices included; all segments in '
     '2 to 4 dimensions with up to 6 (9 thorough), 100 or 1000 parts; one edge of up to 1500 parts by length',
     'Edge lengths that are exact multiples of max_length, repeated vertices and closing edges are not tested.',
     [PR + 'polyline.py', 'blmath/geometry/segment.py'],
     [('by length', PR + 'polyline.py:Polyline.partition_by_length'),
      ('segments', 'blmath/geometry/segment.py:partition_segment')])

prop('C14', 'Polyline against plane: every crossing found, the cut is the front part',
     'intersect_plane returns one point for every edge that meets the plane, in order and with the index of the edge, each '
     'lying on that edge and on the plane. cut_by_plane returns a new open polyline consisting of the vertices in front of '
     'the plane in their original order, completed with the points where the polyline meets the plane; when that is not a '
     'single connected piece it raises ValueError. The polyline itself is unchanged.',
     'all open and closed polylines of 2 to 5 vertices (and of 64 and 200, one of them anywhere), all planes, vertices exactly on the plane and edges inside it for intersections, '
     'vertices on the plane for open cuts',
     'The cases depend on which side each vertex falls, on ties and on where the closing edge lies; tests use one square.',
     [PR + 'polyline.py', PR + 'plane.py'],
     [('intersections', PR + 'polyline.py:Polyline.intersect_plane'), ('cut', PR + 'polyline.py:Polyline.cut_by_plane')])

prop('C15', 'Intersections of two lines are found, and only where they exist',
     'line_intersect returns the one point lying on both 2-d lines, each given by two distinct points (arrays or lists), and '
     'nan coordinates exactly when the lines are parallel. line_intersect3 returns the point lying on both of two 3-d lines '
     'that meet in one point, wherever that point lies relative to the four points given, shared end points included, and '
     'None for parallel lines, or colinear ones, unless they share an end point, which is then the answer. The order of the points '
     'and lines does not matter, and no argument is altered.',
     'all 2-d lines; all pairs of 3-d lines through a common point or parallel, not nearly parallel',
     'Which of the four points coincides or lies on the other line decides the branch; tests use a few integer lines.',
     ['blmath/geometry/segment.py'],
     [('2-d', 'blmath/geometry/segment.py:line_intersect'), ('3-d', 'blmath/geometry/segment.py:line_intersect3')])

prop('C16', 'Barycentric coordinates of projections reproduce the projected point',
     'For every point and every triangle given by a corner and two edge vectors, the three coordinates sum to one and the '
     'point they describe is the orthogonal projection onto the plane of the triangle, so the remainder is perpendicular to '
     'both edges. A stack gives one row per point, each from its own triangle, and a single point one row. Degenerate '
     'triangles give finite coordinates that sum to one and leave the other rows correct; no argument is altered.',
     'all points and triangles, stacks of 1, 2, 70 and 300, real and integer; degenerate triangles with integer edges',
     'An identity over all triangles, plus the degenerate case; the tests use one triangle and a few points.',
     ['blmath/geometry/barycentric.py'],
     [('barycentric', 'blmath/geometry/barycentric.py:barycentric_coordinates_of_projection')])

prop('C17', 'Axis-aligned boxes: all derived measures agree with origin and shape',
     'For every origin and every shape without negative extents, the minimum, maximum and middle along each axis, the ranges, '
     'center and floor point (the center of the bottom face), width, height, depth, volume and surface area are those of the '
     'box from origin to origin plus shape. A negative extent, or an origin or shape that is not three numbers, raises '
     'ValueError. Reading the properties changes neither the box nor the arrays it was made from.',
     'all origins and shapes, zero extents included, as arrays, lists, tuples and integers',
     'Tests read one box with one set of numbers, where mixed up axes and integer arithmetic can pass.',
     [PR + 'box.py'], [('box', PR + 'box.py:Box.center_point'), ('validation', PR + 'box.py:Box.shape')])

prop('C18', 'Extreme points and inflection points are the right points',
     'apex returns the one of the given points furthest along the axis, and farthest returns the point furthest from the '
     'reference point together with its index. inflection_points finds the sample where the curvature of a curve, seen '
     'along the span, changes sign: exactly one for a cubic and none for a convex or concave curve, whatever the spacing '
     'of the samples, the direction of travel and the third coordinate. No argument is altered.',
     '1 to 4 points; cubics on 7 to 10 samples; convex and concave curves of 3 to 5 unevenly spaced samples; 7 samples with one '
     'change of curvature',
     'The tests use one curve; ties, uneven spacing and reversed direction are not covered.',
     ['blmath/geometry/apex.py'],
     [('apex', 'blmath/geometry/apex.py:apex'), ('farthest', 'blmath/geometry/apex.py:farthest'),
      ('inflections', 'blmath/geometry/apex.py:inflection_points')])

prop('C19', 'Gram-Schmidt bases are orthogonal; isomorphism maps coordinates of bases',
     'orthogonalize keeps the first of any linearly independent vectors, makes each later one perpendicular to those before, '
     'and changes it only by a combination of them; orthonormalize gives the same directions with length one for all, or only '
     'the listed, indices. isomorphism returns the matrix whose columns are the coordinates of the second basis in the '
     'first; dependent bases raise LinearDependenceError and bases of different sizes DimensionalityError, both ValueErrors.',
     'all independent sets of 1 to 3 vectors in 2 to 3 (4 thorough) dimensions, real and integer; bases of dimension 1 to 3',
     'Identities over all bases; tests use one integer basis each.',
     [N + 'linalg/gram_schmidt.py', N + 'linalg/isomorphism.py'],
     [('gram-schmidt', N + 'linalg/gram_schmidt.py:orthogonalize'), ('isomorphism', N + 'linalg/isomorphism.py:isomorphism')])

prop('C20', 'Unit conversion factors are the ratios of unit sizes, within one class only',
     'For every pair of units of one class, aliases included, converting multiplies by the ratio of their sizes; converting '
     'back, or by way of a third unit, restores the number, None stays None, and unitless numbers do not change. Units of '
     'different classes, and a named class that is not theirs, raise ValueError. Defaults per system are the documented '
     'units, exceptions apply to that call only, and prettify converts to both systems and rounds to the step '
     'of the unit or the given precision.',
     'all ordered pairs of the known units and all numbers up to 1000 (10000 for prettify)',
     'The table has hundreds of ordered pairs with a special case for aliases; tests convert a few.',
     ['blmath/units.py'],
     [('factor', 'blmath/units.py:factor'), ('convert', 'blmath/units.py:convert'), ('prettify', 'blmath/units.py:prettify')])

prop('C21', 'Values with units: arithmetic and comparison respect the units',
     'Adding, subtracting, dividing and comparing two values converts the second to the units of the first, so the result is '
     'that of the quantities whatever units they are expressed in; the ratio of two values is unitless. With '
     'plain numbers, on either side, the units are kept, and with lists every element is combined. Incompatible units, and '
     'products and powers of values, are refused; conversions keep the quantity, and no operation changes its operands.',
     'ten pairs of units (and incompatible pairs), all numbers up to 1000, all operators in both orders',
     'Operators, reflected operators and unit combinations multiply; tests cover a few with integers.',
     ['blmath/value.py', 'blmath/units.py'],
     [('operators', 'blmath/value.py:Value.__add__'), ('comparison', 'blmath/value.py:Value.__eq__'),
      ('conversion', 'blmath/value.py:Value.convert')])

prop('C22', 'Values display, serialise and read back without losing number or units',
     'prettified gives the current number in metric and United States default units, each a whole number of the steps of that '
     'unit and at most half a step off, without changing the value; prettify does so with a given precision, and default-unit '
     'conversions pick the default of the class of the unit, exceptions first. Values written as JSON, alone or anywhere inside other data, '
     'are read back as values with the same number and units; array and sparse matrix descriptions are read as such, '
     'incomplete ones stay dictionaries. The text of a value shows its number and units. Console input returns the first valid number as a value, or None if empty input is allowed.',
     'every number up to 1000 (any number for JSON and console), all units; eight nestings; up to 4 array entries',
     'Number, unit and nesting combine freely; tests cover a few values and no console input.',
     ['blmath/value.py', 'blmath/units.py', 'blmath/util/json.py', 'blmath/console.py'],
     [('display', 'blmath/units.py:Units.prettify'), ('decoding', 'blmath/util/json.py:decode_json'),
      ('encoding', 'blmath/value.py:Value.for_json'), ('console', 'blmath/console.py:input_value')], over=('inputs', 'histories'))

prop('C23', 'Numeric predicates and array coercion accept exactly the promised inputs',
     'isnumeric, isnumericscalar and isnumericarray hold for finite real numbers, alone or in nested lists, tuples and arrays of '
     'any shape, and fail when any single entry is a string, None, complex, NaN, infinite or another object, and for '
     'booleans; exactly one of scalar and array holds for a numeric input. is_empty_arraylike holds for None and collections without '
     'entries only. as_numeric_array returns the same numbers as an array of the requested shape (-1 matches any length), '
     'transposed when only that fits, and raises ValueError otherwise; None, empty input and dtype follow the options; an array which fits is returned itself.',
     'any real numbers in nine shapes, every position of a wrong entry, fifteen requested shapes, all option combinations',
     'Acceptance depends on position, nesting, shape and options together; tests list a few inputs.',
     [N + 'predicates.py', N + 'coercion.py'],
     [('predicates', N + 'predicates.py:isnumeric'), ('coercion', N + 'coercion.py:as_numeric_array')])

prop('C24', 'Rounding, rescaling, safe division, bsxfun and reshaping keep their promises',
     'round_to gives a whole number of steps at most half a step away, in the same units for a Value, and rounded_list rounds each '
     'number and keeps None. scale_to_range maps the numbers in proportion, the least to r_min and the largest to r_max; '
     'zero_safe_divide gives the quotient, and the default exactly where it is not finite. bsxfun combines rows and columns '
     'as broadcasting does, sparse adds entries at the same place, np_reshape_safe returns a view or raises '
     'AttributeError (a copy with a warning if asked), np_make_readonly write-protects every array. Arguments are not altered.',
     'all real numbers (up to 1000 for rounding), listed or arbitrary positive steps, small arrays of all listed shapes',
     'Rounding and division have to hold for every number and every place of a zero; tests use single examples.',
     [N + 'rounding.py', N + 'operations.py', N + 'matlab.py', N + 'numpy_ext.py', 'blmath/value.py'],
     [('rounding', N + 'rounding.py:round_to'), ('division', N + 'operations.py:zero_safe_divide'),
      ('bsxfun', N + 'matlab.py:bsxfun'), ('reshape', N + 'numpy_ext.py:np_reshape_safe')])

prop('C25', 'Block sparse matrices act as the full matrix; conjugate gradients solve it',
     'Whatever rows and columns are declared dense, the blocks of a StaticBlockSparseMatrix are the parts of the matrix they name, '
     'and products with vectors and matrices, directly or through linOp, MMT and MTM are those of the full matrix, which is not '
     'altered, integer matrices included; without declarations the rows and columns with fewer stored entries than the threshold are sparse. For positive definite '
     'matrices conjGradSolve reaches a residual below the tolerance, from any starting point, in at most as many steps as unknowns or maxiter. '
     'block_sparse_cg_solve solves positive definite systems, with empty rows and columns or columns of a thousand entries among them.',
     'matrices up to 3x3 with listed patterns and any entries, all splits; systems of up to 3 unknowns, families of matrices and right sides',
     'Splits and zero patterns multiply, and the solver has to converge for every right side; the tests do not cover this code.',
     [N + 'linalg/static_block_sparse_matrix.py', N + 'linalg/sparse_cg.py'],
     [('product', N + 'linalg/static_block_sparse_matrix.py:StaticBlockSparseMatrix.matvec'),
      ('solver', N + 'linalg/static_block_sparse_matrix.py:StaticBlockSparseMatrix.conjGradSolve'),
      ('preconditioned solver', N + 'linalg/sparse_cg.py:block_sparse_cg_solve')])

prop('C26', 'Triangle normals follow the right-hand rule; generated solids are watertight',
     'surface_normal gives, for one triangle or row by row for a stack, the unit vector (or with normalize=False the cross '
     'product of the edges) pointing as the right hand rule says. The rectangular prism, cube and triangular prism have exactly '
     'the corners asked for, faces which are watertight, consistently oriented outward and enclose the right volume, and '
     'the flattened form lists the same triangles; the horizontal plane is a quadrilateral at height zero. No argument is altered.',
     'all triangles that are not degenerate, stacks of 1 to 3; all origins and positive sizes',
     'Orientation of every face for all sizes; tests compare one stored prism.',
     ['blmath/geometry/surface_normals.py', 'blmath/geometry/shapes.py'],
     [('normals', 'blmath/geometry/surface_normals.py:surface_normal'),
      ('prism', 'blmath/geometry/shapes.py:create_rectangular_prism')])

O = 'blmath/optimization/objectives/normals.py'

prop('C27', 'Jacobians are the derivatives of the values they come with',
     'The Jacobian rodrigues returns for a rotation vector of any shape is the derivative of the matrix it returns, also at zero, '
     'and the Jacobian it returns for a rotation matrix undoes it; asking for it does not change the value. For the expressions '
     'Rodrigues, NormalizedNx3, CrossProduct, TriEdges, TriNormals, TriNormalsScaled and VertNormals the derivative is that of the value, '
     'which is the rotation matrix, unit vectors (zero stays zero), cross products row by row, differences of triangle corners, normals of triangles, and '
     'for each vertex the unit sum of the normals of its triangles (or, not normalized, their mean over the root of its length), '
     'as rows or flat, also after vertices, faces or the normalization are changed.',
     'all vectors and rotations; one to three vectors; meshes of up to four triangles with all vertices anywhere',
     'Sign and layout errors in Jacobians of tens of entries hide from tests of values; nothing in the tests covers this code.',
     [T + 'rodrigues.py', O],
     [('rotation Jacobian', T + 'rodrigues.py:rodrigues'), ('normalization', O + ':NormalizedNx3.compute_dr_wrt'),
      ('cross product', O + ':CrossProduct.compute_dr_wrt'), ('vertex normals', O + ':VertNormals.on_changed')],
     note='chumpy cannot be imported in this environment: expressions are evaluated by a stand-in (symx/chstub.py) in both runs. '
          'Derivatives are formed symbolically; replays use central differences.')

prop('C28', 'convexify_planar_curve keeps exactly the extreme points, in cyclic order',
     'For points of a plane, with its normal (of any length) given or estimated, the vertices of the result are exactly the extreme points, '
     'in cyclic order along the hull, unchanged; want_vertices returns their indices as well without changing the result; '
     'the result is open or closed as the curve was. With flatten=True and a unit normal the points may lie off the plane: the result '
     'consists of the orthogonal projections of the hull points to the plane of that normal through the mean of all points. '
     'Curves with at most one vertex are returned as they are, and the curve given is never altered.',
     '3 to 5 points in 13 planes with any coordinates in general position, and listed layouts with points inside and on edges',
     'Which points are extreme depends on every coordinate and on the axis dropped; tests use one curve.',
     ['blmath/geometry/convexify.py', T + 'rotation.py'],
     [('hull', 'blmath/geometry/convexify.py:convexify_planar_curve'), ('flattening', 'blmath/geometry/convexify.py:convexify_and_flatten_planar_curve')])

prop('C29', 'rotate_to_xz_plane, estimate_normal and translation do what they return',
     'translation moves every point by the factor given, or by minus the mean of the points, and returns that factor. estimate_normal gives a unit '
     'normal of the plane of coplanar points, and the direction of least spread otherwise. rotate_to_xz_plane returns a proper rotation '
     'which takes the given unit normal to +y (an estimated one to +y or -y), the translation which moves the mean to the origin, or None when it is within '
     '1e-5 already, and exactly the points translated and then rotated, which lie in the x-z plane when they were coplanar; no points are refused '
     'with ValueError. Points and normal are not altered.',
     'any points, translations and unit normals; coplanar points in seven planes',
     'The rotation must be right for every normal, including both directions of the y axis; tests only reach it through convexify.',
     [T + 'rotation.py', T + 'translation.py'],
     [('rotation', T + 'rotation.py:rotate_to_xz_plane'), ('normal', T + 'rotation.py:estimate_normal'),
      ('translation', T + 'translation.py:translation')])

prop('C30', 'The C extension hands over the whole factor and keeps nothing',
     'For every sparse matrix and every factor CHOLMOD may return, lchol_c gives CHOLMOD the matrix as it is, asks for an L L^T factor of its '
     'lower triangle, and returns new arrays with the columns before the first one which fails, their rows and entries, and the permutation, '
     'together with the number of the column which fails, or zero. When CHOLMOD refuses the matrix an exception is raised. Memory is only '
     'accessed within its buffers, every reference taken is given back, everything CHOLMOD made is freed, and the matrix is not altered.',
     'all matrices and factors of up to three columns (thorough: four), any column of failure, refusals at every step',
     'Memory errors and lost references need not show in a result; failures and refusals do not occur in the tests, which do not build the extension here.',
     [N + 'linalg/cholmod.c'],
     [('call', N + 'linalg/cholmod.c:cholmod_lchol_c'), ('columns', N + 'linalg/cholmod.c:sputil_trim'), ('settings', N + 'linalg/cholmod.c:sputil_config')],
     technique='bounded model checking of the real C source with CBMC (SAT), against models of the Python, numpy and CHOLMOD functions it calls; '
               'counterexamples are replayed natively under sanitizers',
     note='CBMC decides every assertion for all inputs within the bounds, with complete loop unwinding. The functions of Python, numpy and CHOLMOD '
          'are models of their documented contracts (allocation succeeds); reachability witnesses and counterexamples are replayed by the same '
          'harness compiled with gcc and the address and undefined behaviour sanitizers.')

prop('C31', 'lchol factorises every sparse positive definite matrix it is given',
     'For a sparse symmetric positive definite matrix of real or integer numbers, lchol returns a lower triangular L with positive diagonal, '
     'zero for the index of failure, and a permutation matrix S with S^T A S = L L^T. For any other symmetric matrix the index, from one, is that of the '
     'first row and column of S^T A S at which it fails, and L holds the columns before. A matrix which is not square raises ValueError. The matrix given is not '
     'altered. The buffers handed to the C extension have the types it reads, 64 bit integers and doubles.',
     'matrices of up to four rows, all patterns of up to three rows, any entries, any permutation chosen by the factorisation',
     'The contract holds for any pattern and number type; tests factorise two matrices of doubles.',
     [N + 'linalg/lchol.py', N + 'linalg/cholmod.c'],
     [('wrapper', N + 'linalg/lchol.py:lchol'), ('extension', N + 'linalg/cholmod.c:cholmod_lchol_c')],
     note='The SuiteSparse factorisation is represented by its contract; replays call the extension built from the current C source.')

prop('C32', 'Correspondences carry points along, lazily when asked for',
     'apply_correspondence relates the points of correspondence_dst to the vertices of correspondence_src, and returns the points in the same relation to the '
     'vertices given: the same points for the source vertices themselves, and the points moved by any affine motion which moves the vertices. The result is a '
     'chumpy expression which follows changes of all three arguments if any of them is one, and an array otherwise. The arguments are not altered.',
     'all points and motions, every choice of arguments which are expressions, changes of each of them',
     'No test calls it; which argument plays which role shows only when the three differ.',
     [T + 'correspondence.py'],
     [('roles and laziness', T + 'correspondence.py:apply_correspondence')],
     note='chumpy and bodylabs are not installed here; both are represented by stand-ins (affine coordinates for the landmark coefficients), in replays too.')

NA = []
PENDING = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    na = dict(NA)
    checks = []
    for p in P:
        if p['id'] in na or not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            na.setdefault(p['id'], 'check not built yet')
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': './check.py %s --tier quick' % p['id'],
            'thorough_cmd': './check.py %s --tier thorough' % p['id'],
            'technique': p['technique'] or 'symbolic execution of the real Python source with SMT (z3, nlsat, cvc5) deciding every '
                         'path obligation',
            'level': 'model_checking',
            'level_note': p['note'] if p['technique'] else ('Every obligation is decided for all real inputs of the stated shapes on every feasible path; '
                           'floats are modelled as exact reals and numpy by an exact stand-in, both validated by '
                           'replaying path witnesses on the real code; every counterexample is replayed before it is '
                           'reported. ' + p['note']).strip()})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
         'notes': 'No hooks in /repo. check.py --replay FILE re-runs a reported violation on the real code.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
