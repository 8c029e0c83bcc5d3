import json
P=[]
def p(id,title,st,qtext,why,files,mech,obs,over=('inputs','configurations')):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
V='cml/vector/';M='cml/matrix/';Q='cml/quaternion/';L='cml/mathlib/'
p('C01','Vector arithmetic is element-wise for every storage, type and aliasing',
  'For every pair of vectors of equal size and every scalar, addition, subtraction, negation, scaling and division (as expressions, nested expressions and compound assignments) give in each position exactly the element-wise result computed in the promoted element type, and leave every operand that is not the target unchanged. The result does not depend on whether operands own their elements, refer to external memory, or have compile-time or run-time size. A compound operation whose scalar or vector operand is (part of) the target itself still uses the operand\'s value from before the operation.',
  'all element values, all sizes, all combinations of storage kinds and element types',
  'Tests check a few literal vectors per operator; an error confined to one storage kind, one index, one mixed element type or an aliased scalar is not sampled.',
  [V+'binary_node.tpp',V+'scalar_node.tpp',V+'unary_node.tpp',V+'writable_vector.tpp',V+'fixed_compiled.tpp',V+'dynamic_allocated.tpp',V+'fixed_external.tpp',V+'dynamic_external.tpp','cml/scalar/binary_ops.h'],
  [('expression nodes evaluate lazily per element',V+'binary_node.tpp'),('compound operators',V+'writable_vector.tpp')],['element access and iteration of the result'])
p('C02','Run-time sized operands must agree in size, otherwise an exception and no change',
  'Whenever at least one operand of a vector or matrix operation (sum, difference, compound assignment, dot, cross, products, comparison-free assignment to a fixed or external target, inverse, determinant) has run-time size, sizes that do not fit the operation raise the documented size error and sizes that fit do not. When the error is raised no operand has been modified and no memory is leaked or accessed out of bounds. Assignment to a resizable target with fitting shape resizes it to exactly the size of the source.',
  'all combinations of run-time sizes (including zero and mixes of fixed and run-time sizes) and all element values',
  'Tests try one mismatching size per operator and never observe the operands afterwards.',
  [V+'size_checking.h',V+'detail/check_or_resize.h',M+'size_checking.h',M+'size_checking.tpp',M+'detail/check_or_resize.h',V+'writable_vector.tpp',M+'writable_matrix.tpp'],
  [('size checks before evaluation',V+'size_checking.h'),('matrix size checks',M+'size_checking.tpp')],['exceptions thrown','operand contents after an exception'])
p('C03','Dot, cross, perp-dot, triple and outer products match their definitions',
  'The dot, cross, perpendicular-dot and scalar triple products and the outer product of vectors equal their algebraic definitions for every input, for every combination of storage kinds and element types, also when an operand is itself an expression. In particular the cross product is orthogonal to both factors, and the triple product equals the dot product with the cross product.',
  'all element values, all applicable sizes and storage combinations',
  'Tests evaluate each product for one or two literal pairs.',
  [V+'dot.tpp',V+'cross_node.tpp',V+'cross_ops.h',V+'perp_dot.tpp',V+'triple_product.tpp',V+'outer_product_node.tpp',V+'functions.tpp'],
  [('products as free functions',V+'ops.h')],['returned value'])
p('C04','Length, normalisation and vector measures',
  'For every vector, the squared length is the sum of squared elements, the length its non-negative square root, and distances between two vectors are the length of their difference, for every storage kind. Normalising a non-zero vector yields the vector divided by its length, hence a unit vector with the same direction; the free functions leave their argument unchanged and the in-place member changes only its target. Minimum and maximum element operations, element-wise and over the vector, return exactly the extreme value.',
  'all element values (non-zero where a direction is required), sizes and storage kinds',
  'Tests check a handful of vectors with convenient lengths.',
  [V+'readable_vector.tpp',V+'writable_vector.tpp',V+'functions.tpp',V+'functions.h'],
  [('length and normalize',V+'readable_vector.tpp')],['returned values, target contents'])
p('C05','Vector construction, assignment, sub-vectors and element-wise products',
  'Constructing or assigning a vector from scalars, arrays, pointers, initialiser lists, other vectors, or a vector extended by further scalars produces exactly those elements in order, converting element types as the built-in conversion would. Setting to zero, to a cardinal axis or through indexing, and copying, changes exactly the named elements; sub-vectors contain all elements but the excluded one, in order; Hadamard products multiply element by element.',
  'all element values, all construction forms, sizes and storage kinds',
  'Tests use one literal per constructor form and storage kind.',
  [V+'writable_vector.tpp',V+'fixed_compiled.tpp',V+'dynamic_allocated.tpp',V+'fixed_external.tpp',V+'dynamic_external.tpp',V+'subvector_node.tpp',V+'hadamard_product.h','cml/vector/types.h'],
  [('assignment overloads',V+'writable_vector.tpp')],['element access'])
p('C06','Comparisons are consistent orders and hashes respect equality',
  'For vectors, matrices and quaternions: equality holds exactly when shape and all elements are equal, and inequality is its negation. For vectors and quaternions the ordering operators form the lexicographic strict weak order of the elements, with <=, > and >= consistent with < and ==. Equal vectors have equal hash values.',
  'all pairs (and triples, for transitivity) of element values, all sizes and storage kinds',
  'Tests compare a few literals; consistency of the six operators and transitivity quantify over all pairs and triples.',
  [V+'comparison.tpp',M+'comparison.tpp',Q+'comparison.tpp','cml/common/hash.h','cml/util/vector_hash.h'],
  [('comparison operators',V+'comparison.tpp')],['boolean results, hash values'])
p('C07','Owned and external storage: copies are independent, views alias, nothing leaks',
  'A vector or matrix that owns its elements is independent of the object it was copied from, keeps its elements when moved, copied, swapped through, or resized (common prefix / retained elements where documented), and releases its memory exactly once even when an operation throws; an operation that throws leaves its target as it was. (Arithmetic element types.) An external vector or matrix reads and writes exactly the memory it was given and nothing else. No sequence of constructions, assignments, moves and resizes reads freed, uninitialised or out-of-range memory.',
  'all sequences of construct, copy, move, assign, resize and destroy operations over all small sizes and all element values',
  'Tests perform single operations without a memory model.',
  [V+'dynamic_allocated.tpp',M+'dynamic_allocated.tpp',V+'dynamic_external.tpp',M+'dynamic_external.tpp',V+'fixed_external.tpp',M+'fixed_external.tpp','cml/storage/resize.h','cml/storage/allocated_selector.h'],
  [('allocation, copy and resize',V+'dynamic_allocated.tpp')],['element access, memory effects'],over=('histories','inputs','configurations'))
p('C08','Matrix element layout, rows, columns and basis vectors',
  'A matrix of any storage kind, size and basis orientation returns from element (i,j) exactly what was last stored there, lays its elements out contiguously by row or by column according to its layout, and keeps distinct elements independent. Row, column and basis-vector accessors and setters, identity, zero, diagonal and construction from arrays, vectors or nested lists address exactly the documented elements irrespective of layout.',
  'all element values, sizes, layouts, basis orientations and storage kinds',
  'Tests cover a few sizes and compare a few elements.',
  [M+'fixed_compiled.tpp',M+'dynamic_allocated.tpp',M+'fixed_external.tpp',M+'dynamic_external.tpp',M+'readable_matrix.tpp',M+'writable_matrix.tpp',M+'row_node.tpp',M+'col_node.tpp',M+'basis_node.tpp','cml/matrix/detail/copy.h'],
  [('layout dispatch',M+'fixed_compiled.tpp')],['element access, raw data pointer'])
p('C09','Matrix arithmetic is element-wise independent of layout and storage',
  'Matrix sums, differences, negation, scaling, division and Hadamard products, as expressions and compound assignments, give in each position the element-wise result in the promoted type, for all mixes of row- and column-major operands and of storage kinds, and leave non-target operands unchanged. Compound scaling by an element of the matrix itself uses the value from before the operation.',
  'all element values, sizes, layout, basis and storage combinations',
  'Tests use small integer literals and mostly one layout.',
  [M+'binary_node.tpp',M+'scalar_node.tpp',M+'unary_node.tpp',M+'writable_matrix.tpp',M+'detail/apply.h',M+'hadamard_product.h'],
  [('per-element evaluation',M+'detail/apply.h')],['element access of the result'])
p('C10','Matrix-matrix and matrix-vector products',
  'Every product of a matrix with a conforming matrix, of a matrix with a column vector and of a row vector with a matrix equals the mathematical product for all element values, sizes (square or rectangular), layouts (equal for both matrices), bases, element types and storage kinds. Operands are unchanged, and the product agrees with transposition: the transpose of a product is the product of the transposes in reverse order.',
  'all element values, conforming sizes, layouts, bases and storage combinations',
  'Tests multiply a few literal matrices.',
  [M+'matrix_product.tpp',M+'vector_product.tpp'],
  [('triple loop product',M+'matrix_product.tpp')],['element access of the result'])
p('C11','Transpose, trace, determinant and inverse',
  'For every square matrix of size two or more the determinant equals the Leibniz value and the inverse of a matrix, when it exists, multiplied with it gives the identity, whatever the size, layout, storage or sign pattern of the elements. Transposition (as expression, in place, square or rectangular) exchanges element (i,j) with (j,i) and the trace is the sum of the diagonal; the free functions leave their argument unchanged.',
  'all element values for which the numeric thresholds documented for pivoting are met, all sizes, layouts and storage kinds',
  'Tests invert a few fixed matrices of size two to four; pivoting paths for larger sizes depend on magnitudes and signs.',
  [M+'determinant.tpp',M+'detail/determinant.h',M+'inverse.h',M+'detail/inverse.h',M+'transpose_node.tpp',M+'detail/transpose.h',M+'trace.tpp'],
  [('cofactor inverse 2-4, pivoting inverse above',M+'detail/inverse.h'),('determinant by cofactors or pivoted LU',M+'detail/determinant.h')],['returned matrix or scalar'])
p('C12','LU factorisation and triangular solves',
  'The in-place and copying LU factorisations produce unit-lower and upper factors whose product is the input matrix, or its row permutation recorded in the returned order with the sign of that permutation when pivoting; a pivot search that finds no usable pivot is reported as singular. Solving with the factors returns the vector that the original matrix maps to the right-hand side, for every right-hand side.',
  'all matrices with non-vanishing pivots (all matrices above the singularity threshold when pivoting), right-hand sides, sizes and layouts',
  'Tests factor a few literal matrices.',
  [M+'lu.tpp',M+'detail/lu.tpp'],
  [('Doolittle and pivoted elimination',M+'detail/lu.tpp')],['factor matrix, order array, sign, solution'])
p('C13','Quaternion algebra for both element orders and product conventions',
  'Quaternion sums, differences, scaling, conjugation, dot product, real and imaginary parts and products equal the Hamilton algebra for every element value, with the imaginary-first and real-first element orders giving the same quaternion and with the negative cross convention giving the product with its factors exchanged. The product is associative, its norm is multiplicative, and conjugation reverses products; compound operations agree with the expressions, also when an operand is the target.',
  'all quaternions, both element orders, both product conventions, element types and storage kinds',
  'Tests multiply a few literals in one convention.',
  [Q+'product.tpp',Q+'binary_node.tpp',Q+'conjugate_node.tpp',Q+'imaginary_node.tpp',Q+'readable_quaternion.tpp',Q+'writable_quaternion.tpp',Q+'order_tags.h',Q+'cross_tags.h',Q+'dot.tpp'],
  [('product with convention sign',Q+'product.tpp')],['element access of the result'])
p('C14','Quaternion inverse, normalisation, exponential and logarithm',
  'For every non-zero quaternion, the inverse times the quaternion is the identity and normalising divides by the length. The exponential and logarithm equal their closed forms, with exp mapping real quaternions to real quaternions and log inverting exp for imaginary parts shorter than pi; the member functions change only their target and the free functions change nothing.',
  'all quaternions (non-zero where required), both orders and conventions',
  'Tests evaluate a few literals and skip zero imaginary parts.',
  [Q+'writable_quaternion.tpp',Q+'inverse_node.tpp',Q+'functions.tpp',Q+'readable_quaternion.tpp'],
  [('closed forms',Q+'writable_quaternion.tpp')],['element access of the result'])
p('C15','Rotation matrices and quaternions built from axis and angle',
  'Rotations about a world axis or a unit axis by an angle, as matrices (2D, 3x3 and 4x4, row or column basis, any layout) and as quaternions (any element order and product convention), rotate every vector by exactly that right-handed angle about that axis, so they are orthonormal with determinant one and fix the axis. Matrices built from a unit quaternion act on vectors as conjugation by that quaternion, and rotating a vector by axis and angle directly gives the same result.',
  'all angles, unit axes and vectors, all bases, layouts and conventions',
  'Tests use angles such as 90 degrees about coordinate axes.',
  [L+'matrix/rotation.tpp',L+'quaternion/rotation.tpp',L+'vector/rotation.tpp'],
  [('axis-angle construction',L+'matrix/rotation.tpp')],['elements of the result, rotated vectors'])
p('C16','Euler angle rotations for all twelve orders',
  'For every three angles and each of the twelve Euler orders the rotation matrix and quaternion built from them equal the composition of the three elementary rotations in that order. The linear part of the derivative matrix with respect to each angle is the derivative of that rotation. Extracting angles from a rotation matrix or unit quaternion and rebuilding with the same order reproduces the rotation, up to the stated tolerance near gimbal lock.',
  'all angles, all orders, all derivative indices, bases, layouts and conventions',
  'Tests try a few angles for a few orders; the even/odd and repeating orders exercise different sign paths.',
  [L+'matrix/rotation.tpp',L+'quaternion/rotation.tpp',L+'euler_order.h'],
  [('packed order decoding',L+'euler_order.h'),('euler construction and extraction',L+'matrix/rotation.tpp')],['matrix and quaternion elements, angles'])
p('C17','Conversions between rotation representations round-trip',
  'Converting a rotation between matrix, quaternion and axis-angle form and back reproduces the same rotation, for every rotation in every branch of the conversion (trace positive, or largest diagonal element in any position) and for both element orders, conventions and bases. Converted quaternions have unit length, converted axes have unit length and angles lie in the documented range; a rotation by (nearly) zero yields angle zero.',
  'all rotations (all unit quaternions), both orders, conventions and bases',
  'Each branch is selected by inequalities between matrix elements; tests sample few rotations per branch.',
  [L+'matrix/rotation.tpp',L+'quaternion/rotation.tpp'],
  [('matrix to quaternion branches',L+'quaternion/rotation.tpp'),('to axis angle',L+'quaternion/rotation.tpp')],['elements of the converted values'])
p('C18','Aiming, aligning, look-at and orthonormal basis construction',
  'Constructing an orthonormal basis from one or two non-parallel vectors (2D and 3D, all axis orders) yields unit, mutually orthogonal, right-handed basis vectors whose first named axis has the direction of the first input. Aiming, aligning and view-aligning rotations and view (look-at) matrices map the documented axes to the documented directions and are proper rotations, with the view matrix sending the eye to the origin in left- and right-handed form.',
  'all non-degenerate direction vectors and positions, all axis orders, bases and handedness',
  'Tests aim along coordinate axes only.',
  [L+'vector/orthonormal.tpp',L+'matrix/rotation.tpp',L+'quaternion/rotation.tpp',L+'matrix/transform.tpp'],
  [('basis construction',L+'vector/orthonormal.tpp'),('look at',L+'matrix/transform.tpp')],['basis vectors, matrix elements'])
p('C19','Affine transforms: translation, scale, composition, inversion, application',
  'Translation, scale, inverse-scale and affine transform builders write exactly the documented homogeneous matrix for 2D and 3D, row and column basis. Transforming a point applies linear part and translation, transforming a vector only the linear part, the concatenation of transforms applies them in the documented order, and the inverse of a rigid transform undoes it on every point. Setting one part of a transform leaves the other parts unchanged.',
  'all element values, points and vectors, both bases, layouts and dimensions',
  'Tests use a few literals; basis orientation errors show only for some combinations.',
  [L+'matrix/transform.tpp',L+'matrix/translation.tpp',L+'matrix/scale.tpp',L+'matrix/invert.tpp',L+'matrix/concat.tpp',L+'vector/transform.tpp'],
  [('homogeneous element accessors',L+'matrix/basis.tpp')],['matrix elements, transformed points'])
p('C20','Projection matrices and frustum planes',
  'Orthographic and perspective projection matrices (left/right handed, both depth ranges, all parameter forms, both bases) map the corners of the specified viewing volume to the corners of the clip volume for every valid set of extents. The frustum planes extracted from a model-view-projection matrix are exactly the planes bounding the visible volume with inward normals of unit length when normalisation is requested.',
  'all valid extents, near and far distances, points, bases and depth ranges',
  'Tests compare a few element values for a single set of extents.',
  [L+'matrix/projection.tpp',L+'frustum.tpp'],
  [('orthographic/perspective builders',L+'matrix/projection.tpp'),('plane extraction',L+'frustum.tpp')],['matrix elements, plane coefficients'])
p('C21','Polar, cylindrical and spherical coordinates',
  'Converting polar, cylindrical or spherical coordinates (latitude or colatitude, any axis) to Cartesian coordinates gives the defining trigonometric expressions for every input. Converting Cartesian coordinates back and forth reproduces every point, including points on the axis and at the origin, with non-negative radius; only within the zero tolerance of the axis or origin may the angle be dropped.',
  'all coordinates, axes and spherical conventions',
  'Tests convert a few points away from the axes.',
  [L+'coordinate_conversion.tpp'],
  [('conversions',L+'coordinate_conversion.tpp')],['converted coordinates'])
p('C22','Scalar helper functions and angles between vectors',
  'The scalar helpers (clamping, wrapping, range tests and mapping, sign, powers, lengths, guarded inverse functions and roots, degree/radian conversion, index of extreme element) return their mathematical definition for every input including boundary values. The unsigned angle between two non-zero vectors lies in [0, pi] and has the cosine of the normalised dot product, and the signed angle has the sign given by the orientation in 2D and by the reference axis in 3D.',
  'all scalar inputs, all non-zero vectors',
  'Tests sample few values and rarely boundaries.',
  ['cml/scalar/functions.h',L+'vector/angle.tpp','cml/scalar/traits.h',L+'constants.h'],
  [('scalar functions','cml/scalar/functions.h'),('angles',L+'vector/angle.tpp')],['returned values'])
p('C23','Axis and Euler order codes decode to the named axes',
  'Every axis order and Euler order code decodes to the three axes in its name with the right parity and repetition flags, for all codes; cyclic permutation of indices yields the requested distinct cyclic triple for every start index.',
  'all order codes and all start indices',
  'Tests use the codes indirectly for a few orders.',
  [L+'axis_order.h',L+'euler_order.h','cml/common'],
  [('bit packing',L+'euler_order.h')],['decoded indices'])
p('C24','Inverse trigonometric and root arguments stay in domain under rounding',
  'Angle and conversion functions never pass an out-of-range argument to a square root, inverse cosine, inverse sine or logarithm, and so never return NaN for that reason, for finite inputs that satisfy their preconditions, even when rounding (without intermediate overflow or underflow) pushes a cosine outside [-1, 1] or a nominally non-negative quantity below zero.',
  'all finite inputs satisfying the precondition and all roundings of intermediate results',
  'Rounding that leaves the domain happens only for rare inputs.',
  ['cml/scalar/functions.h',L+'vector/angle.tpp',L+'quaternion/rotation.tpp',L+'matrix/rotation.tpp',L+'coordinate_conversion.tpp'],
  [('guarded inverse functions','cml/scalar/functions.h')],['returned values'])
p('C25','Random values respect their requested range and geometry',
  'Random integers and reals lie in the requested range for every generator output, random unit vectors have unit length, and random unit vectors constrained to a cone lie within the requested angle of its direction.',
  'all outputs of the underlying generator and all requested ranges',
  'Tests draw a few samples.',
  [L+'random_unit.tpp','cml/scalar/functions.h'],
  [('random generation',L+'random_unit.tpp')],['returned values'])
p('C26','Textual output lists the elements in order',
  'Writing a vector, matrix or quaternion to a stream inserts its elements exactly once, in order, through the stream (so the stream format settings apply), and returns the stream: a vector as its elements separated by single spaces (an empty vector as nothing), a matrix as one bracketed line per row with a line break between rows, a quaternion as its w, x, y, z in one pair of brackets whatever its storage order.',
  'all element values and sizes',
  'Tests check one literal each.',
  ['cml/util/vector_print.h','cml/util/matrix_print.h','cml/util/quaternion_print.h'],
  [('stream insertion','cml/util/vector_print.h')],['stream contents'])
p('C27','Geometry functions accept exactly the run-time shapes they need, and act there as on fixed sizes',
  'For matrices whose shape and vectors whose size are known only at run time, each transform, rotation, projection, basis, translation, scale, trace and conversion function accepts every shape large enough for its documented minimum (or exactly its documented size), in row and column basis, and gives there the same result as on the smallest fixed size that has all its elements: builders leave the identity (or zero, for skew-symmetric matrices) outside the part they define, setters leave all other elements unchanged, and functions that only read leave the matrix unchanged. Every other shape or size is rejected with the size error that the function documents, and a matrix rejected for its shape is left unchanged; an axis index outside the dimensions is rejected as an invalid argument.',
  'all run-time shapes and sizes, all element values, both bases',
  'Tests use shapes that fit; a wrong bound, a transposed shape test or a write outside the documented part shows only for particular shapes.',
  [L+'matrix/size_checking.tpp',L+'matrix/basis.tpp',L+'matrix/translation.tpp',L+'matrix/rotation.tpp',L+'matrix/scale.tpp',L+'matrix/projection.tpp',L+'vector/transform.tpp',L+'quaternion/rotation.tpp'],
  [('shape checks',L+'matrix/size_checking.tpp'),('vector size checks','cml/vector/size_checking.tpp')],['exceptions, matrix elements, returned values'])
p('C28','Field of view and zoom conversions',
  'The conversions between horizontal and vertical field of view, between field of view and zoom, and between horizontal and vertical zoom satisfy their defining relations (aspect is width over height, so tan(yfov/2) = tan(xfov/2)/aspect and yzoom = xzoom*aspect; zoom = 1/tan(fov/2)) for every admissible angle, zoom and aspect ratio, and each conversion is undone by its inverse.',
  'all fields of view between 0 and pi, all positive zooms and aspect ratios',
  'No test calls these functions.',
  ['cml/util.h'],
  [('fov conversions','cml/util.h')],['returned values'])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
