#!/usr/bin/env python3
"""Writes properties.jsonl. Run by hand; the output is committed."""
import json, os
CORE = "crates/cglinalg_core/src/"
TR = "crates/cglinalg_transform/src/"
P = []
def prop(id, title, statement, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": ["inputs"], "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

prop("C01", "Vector and point arithmetic is componentwise in every operator form",
 "Adding, subtracting, negating, scaling, dividing and taking remainders of vectors, and displacing and subtracting points, give componentwise the result of the scalar operation, with the operands in the right order, for floating-point and integer scalars alike. Every by-value, by-reference and assigning form of an operator gives the same result, assigning forms change only their left operand, and the additive identity, constructors, fill values, componentwise products and map agree with the components.",
 "all scalars in every component of both operands, dimensions 1 to 4 (and beyond for the generic types), and every operator form (value or reference on either side, assigning forms, scalar on the left)",
 "The unit tests use two or three literal vectors per operator and mostly one of the four reference forms; a swapped component, a wrong operand order or a form that drops a component is invisible to them.",
 [CORE + "vector.rs", CORE + "point.rs"],
 [("impl_vector_vector_binary_ops and friends", CORE + "vector.rs"), ("impl_point_vector_binary_ops and friends", CORE + "point.rs")])
prop("C02", "Products, norms, distances and projections of vectors obey their definitions",
 "Dot and cross products, squared norms, norms and distances of vectors and points (L1, L2, Lp and infinity), component sums, products and extrema are the textbook functions of the components. Normalizing or rescaling keeps the direction and gives exactly the requested norm, and the checked variants refuse exactly the inputs whose norm is at or below the threshold; projection, rejection, reflection and linear interpolation satisfy their defining equations.",
 "all component values (with the stated non-zero requirements) and all thresholds, in every supported dimension",
 "The tests compare a few literal vectors with literal results; identities such as orthogonality of the rejection or behaviour on each side of a threshold are not sampled at all.",
 [CORE + "vector.rs", CORE + "point.rs", CORE + "normed.rs"],
 [("Vector::dot, cross, metric_distance, normalize, try_normalize, lerp, project, reflect", CORE + "vector.rs"), ("Normed", CORE + "normed.rs")])
prop("C03", "Indexing, conversions and views never lose, reorder or fabricate a component",
 "Reading or writing a component of a vector, point, matrix, quaternion or complex number by index, by name, by swizzle, through iterators, arrays, tuples, slices, references or raw pointers reaches the same memory in the documented order (column-major for matrices), and a write changes that component only. Conversions to and from arrays, tuples and other dimensions are lossless where they can be; an index outside the dimension, or a slice of the wrong length, panics rather than reaching other memory.",
 "all component values, all indices of type usize, all slice lengths",
 "Tests index a handful of positions; they cannot try every index value nor every conversion with distinguishable components.",
 [CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "coordinates.rs"],
 [("AsRef/AsMut/From reinterpretations", CORE + "matrix.rs"), ("impl_as_ref_ops!, impl_swizzle!", CORE + "vector.rs"), ("coordinate views X..M4x4", CORE + "coordinates.rs")])
prop("C04", "Matrix arithmetic is exact linear algebra for every shape and operator form",
 "Matrix addition, subtraction, negation, scaling, matrix-matrix and matrix-vector products, transposes, traces, diagonals, row/column access, swaps, symmetry and diagonal predicates and the entrywise maps are the textbook operations on the entries, for every supported rectangular shape, with floating-point and integer entries alike. Every by-value, by-reference, assigning and transposed-multiplication form agrees with the plain form and assigning forms change only their left operand.",
 "all entries of all operands, every supported shape and every operator form",
 "Tests check one literal pair per square shape and few of the reference forms; rectangular shapes are barely touched.",
 [CORE + "matrix.rs"],
 [("impl_matrix_matrix_mul_ops and friends", CORE + "matrix.rs"), ("dot_array_col", CORE + "matrix.rs")])
prop("C05", "Determinants and inverses are correct for every matrix",
 "The determinant of a square matrix equals its Leibniz expansion. A matrix whose determinant is not zero has an inverse which multiplied on either side gives the identity, a matrix whose determinant is zero has none, and a matrix reported invertible has a non-zero determinant.",
 "all 1x1 to 4x4 matrices of reals, singular and regular",
 "Tests use a few literal matrices; a wrong cofactor sign is hidden when that cofactor is zero in all of them.",
 [CORE + "matrix.rs"], [("determinant, inverse/try_inverse, is_invertible", CORE + "matrix.rs")])
prop("C06", "Geometric matrix constructors build the map they describe",
 "The matrices built from scales, translations, shears, reflections, rotations about an axis or between two vectors, and look-at or look-to viewing frames act on every point and vector as the described geometric map does. Rotations are orthogonal with determinant one, turn by the given angle in the right-handed sense and carry the stated vector to the stated vector; viewing frames send the eye to the origin and the viewing direction to the documented axis, and the inverse viewing frames undo them.",
 "all factors, displacements, unit directions, angles, eyes, targets and up vectors meeting the stated preconditions (non-zero, not parallel)",
 "Tests use axis-aligned directions and special angles, where most coefficients vanish; they cannot reach every direction and angle.",
 [CORE + "matrix.rs"], [("from_shear, from_affine_*, from_axis_angle, rotation_between, look_to_*, look_at_*", CORE + "matrix.rs")])
prop("C07", "Perspective and orthographic projections map the view volume to the clip cube",
 "A perspective or orthographic projection sends the corners of its view volume to the corners of the clip cube, its projecting of points and vectors agrees with its homogeneous matrix followed by the perspective divide, and unprojecting undoes projecting. The parameters it was built from (planes, field of view, aspect ratio) can be read back from it, and the field-of-view constructors build the same projection as the equivalent planes.",
 "all plane displacements with near and far distinct and positive, all fields of view in (0, pi), all aspect ratios and all points with non-zero depth",
 "Tests use symmetric frusta and one field of view, for which the off-centre coefficients are zero.",
 [TR + "projection.rs", CORE + "matrix.rs"], [("Perspective3, Orthographic3", TR + "projection.rs"), ("from_perspective, from_orthographic, from_perspective_vfov", CORE + "matrix.rs")])
prop("C08", "Quaternion arithmetic is Hamilton's algebra in every operator form",
 "Quaternion addition, subtraction, negation, scaling, Hamilton product, conjugate, norms, inverse, commutator-like and projection operations are those of Hamilton's algebra on (scalar, i, j, k) for floating-point and, where they are available, integer components, and a quaternion with non-zero norm times its inverse is one. Every by-value, by-reference and assigning form agrees with the plain one, and real, pure and identity predicates and constructors agree with the components.",
 "all quaternions and scalars and every operator form",
 "Tests multiply a few literal quaternions; a sign error in one of sixteen products is invisible for most inputs with zero components.",
 [CORE + "quaternion.rs"], [("impl_quaternion_* operators, conjugate, inverse, magnitude", CORE + "quaternion.rs")])
prop("C09", "Unit quaternions rotate as the matrix and axis-angle they stand for",
 "A unit quaternion built from an axis and angle rotates every vector by that angle about that axis, conversion to and from 3x3 and 4x4 matrices preserves the rotation, and the rotation between two vectors carries one to the other. Interpolations (lerp, nlerp, slerp) start and end at their arguments, stay on the unit sphere where they promise to, and the look-at and look-to rotations send the viewing direction to the documented axis.",
 "all unit axes, angles, unit quaternions, rotation matrices, non-degenerate vector pairs and interpolation parameters",
 "Tests use axis-aligned rotations, and each branch of the matrix-to-quaternion conversion with one literal at most.",
 [CORE + "quaternion.rs"], [("from_axis_angle, From<&Matrix3x3>, slerp, nlerp, rotation_between, look_to_*", CORE + "quaternion.rs")])
prop("C10", "Powers, roots, logarithms and trigonometry of complex numbers and quaternions",
 "The exponential, logarithm, square root, power, sine, cosine, tangent, their hyperbolic and inverse counterparts of complex numbers and quaternions equal their textbook expressions in the components, wherever those are defined (quaternions: along the axis of the argument; the logarithm of a negative real quaternion is documented as that of its absolute value, and a vector part below the library's threshold counts as zero). Square roots square back to the argument, the exponential of a logarithm gives the argument back, and the polar form rebuilds the number.",
 "all complex numbers and quaternions in the domain of each function",
 "Tests evaluate these at a few points, usually on the real axis, where the imaginary parts' formulas are not exercised.",
 [CORE + "quaternion.rs", CORE + "complex.rs"], [("exp, ln, sqrt, powf, sin, cos, tan, sinh...", CORE + "complex.rs"), ("exp, ln, sqrt, powf, sin, cos...", CORE + "quaternion.rs")])
prop("C11", "Complex arithmetic is the field of complex numbers in every operator form",
 "Complex addition, subtraction, negation, scaling, multiplication, division, conjugate, modulus, argument and inverse are those of the complex field, in every by-value, by-reference and assigning form, with complex or real operands on either side, and for integer parts those of the Gaussian integers wherever the result is one. Multiplying by a complex number made from an angle rotates the plane by that angle, and the modulus and argument rebuild the number.",
 "all complex numbers, scalars, angles and every operator form",
 "Tests use small literal integers and few operator forms.",
 [CORE + "complex.rs"], [("impl_complex_* operators, inverse, from_angle, from_polar_decomposition", CORE + "complex.rs")])
prop("C12", "Angles convert, combine and normalize consistently in degrees and radians",
 "Degree and radian angles convert to each other with 180 degrees equal to pi, arithmetic on angles is arithmetic on their measure in every operator form, and trigonometric functions of an angle are those of its radian measure in either unit. Normalizing puts an angle into [0, full turn) or (-half turn, half turn] changing it by whole turns only; opposites and bisectors are as far apart as they claim, and inverse functions return angles whose function is the argument.",
 "all angle measures, both units, every operator form",
 "Tests use a dozen round angles; wrap-around at other inputs, negative multiples and the unit conversions inside each trigonometric function are not sampled.",
 ["crates/cglinalg_trigonometry/src/lib.rs"], [("Angle::normalize, bisect, opposite, Trigonometry impls, From conversions", "crates/cglinalg_trigonometry/src/lib.rs")])
prop("C13", "A unit wrapper always holds the normalized value of what it was given",
 "A value obtained from a normalizing constructor of the unit type has norm one and the direction of the argument, the reported previous norm is the norm of the argument, and checked constructors refuse exactly the arguments with norm at or below the threshold. Negating a unit value, the one arithmetic operation on the wrapper, keeps the norm at one and reverses the direction; unit values the library hands out (rotation axes, polar decompositions) have norm one, and the unchecked constructors and accessors pass the value through unchanged.",
 "all vectors, quaternions and complex numbers with the stated norm preconditions, all thresholds",
 "Tests normalize a few literals.",
 [CORE + "unit.rs", CORE + "normed.rs", CORE + "vector.rs", CORE + "quaternion.rs", CORE + "complex.rs"],
 [("Unit::from_value, from_value_with_norm, try_from_value_with_norm, from_value_unchecked", CORE + "unit.rs"), ("Normed impls", CORE + "vector.rs")],
 state=[{"name": "Unit<T>", "meaning": "wraps a T of norm one", "where": CORE + "unit.rs"}])
prop("C14", "Rotations, isometries and similarities form groups and match their matrices",
 "Applying a rotation, isometry or similarity to points and vectors agrees with its homogeneous matrix; composing two of them acts as one after the other; inverting one gives the transformation that undoes it, for points and for vectors. Rotations preserve lengths and handedness, isometries preserve distances, similarities multiply distances by their scale, and constructors (axis-angle, angle between vectors, look-at, from translation, scale and rotation parts) build the transformation they name.",
 "all rotations, displacements, non-zero scales, points and vectors in two and three dimensions, every operator form",
 "Tests apply a few literal transformations to basis vectors.",
 [TR + "rotation.rs", TR + "isometry.rs", TR + "similarity.rs", TR + "isometry_ops.rs"],
 [("Rotation, Isometry, Similarity: apply_*, inverse*, Mul impls, to_affine_matrix", TR)])
prop("C15", "Translations, scales, shears and reflections act and invert as described",
 "Applying a translation, scale, shear or reflection to points and vectors agrees with its homogeneous matrix and with the described geometric map; composition acts as one after the other. Inverting gives the transformation that undoes it, reflections are their own inverse, translations do not move vectors, and the parameters it was built from can be read back.",
 "all displacements, non-zero factors, unit directions and normals, shear amounts, points and vectors in one to three dimensions, every operator form",
 "Tests use axis-aligned literals.",
 [TR + "translation.rs", TR + "scale.rs", TR + "shear.rs", TR + "reflection.rs"],
 [("Translation, Scale, Shear, Reflection: apply_*, inverse*, Mul impls", TR)])
prop("C16", "Generic transforms compose, invert and convert without changing their action",
 "A generic transform made from any specific transformation acts on points and vectors as that transformation, and as its homogeneous matrix with the perspective divide. Composing transforms acts as one after the other; the inverse undoes the action and exists exactly when the matrix is invertible.",
 "all transformation matrices, points and vectors, every operator form",
 "Tests apply a few literal transforms.",
 [TR + "transform.rs"], [("Transform::apply_point, apply_vector, inverse, Mul impls, From impls; to_transform of every specific type", TR + "transform.rs")])
prop("C17", "Euler angles describe the same rotation as the matrix they convert to",
 "The rotation matrix of a triple of Euler angles is the product of the rotations about the x, y and z axes in the documented order, and extracting the angles from such a matrix gives angles of the same rotation, the gimbal-locked cases included. Constructors, the zero test and equality act angle by angle, and degrees and radians describe the same rotation.",
 "all triples of angles, including pitch at plus and minus a quarter turn",
 "Tests use a few literal triples and avoid the branch points.",
 [CORE + "euler.rs", TR + "rotation.rs"], [("Euler::to_matrix, to_affine_matrix, From<Quaternion>, from_matrix", CORE + "euler.rs"), ("Rotation3::from_euler_angles, euler_angles", TR + "rotation.rs")])
prop("C18", "Approximate comparison holds exactly when it holds for every component",
 "Comparing two vectors, points, matrices, quaternions, complex numbers, angles, units or transformations within an absolute, relative or units-in-last-place tolerance answers yes exactly when the scalar comparison answers yes for every corresponding component under that component's tolerance. The 'all components' forms use the one tolerance for each component, and the reported difference and tolerances are componentwise.",
 "all pairs of values and all tolerances",
 "Tests compare nearly equal literals; one component left out of the conjunction is invisible unless that component alone differs.",
 [CORE + "vector.rs", CORE + "matrix.rs", CORE + "point.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "unit.rs", "crates/cglinalg_trigonometry/src/lib.rs", TR],
 [("impl approx_cmp::AbsDiffEq/RelativeEq/UlpsEq and the All*/Assert* traits", CORE)])
prop("C19", "Primitive numbers keep their meaning through the library's scalar traits",
 "For every primitive number type the scalar traits give the number's own absolute value, sign, extrema, constants, roots, powers and trigonometric functions. Casting between the number types keeps the value wherever the target can hold it.",
 "all values of every primitive scalar type",
 "There are no tests for the scalar trait implementations.",
 ["crates/cglinalg_numeric/src/lib.rs"], [("SimdScalar* impls and casts", "crates/cglinalg_numeric/src/lib.rs")])
prop("C20", "Finiteness tests and complex functions at infinite or NaN arguments",
 "A vector, matrix, quaternion, complex number or angle reports finite exactly when every one of its components is, and a complex number reports NaN exactly when a part is and infinite exactly when a part is infinite and neither is NaN. At arguments with an infinite or NaN part the complex sine, cosine, tangent, their hyperbolic forms and the inverses of all six have the limit values of C99 Annex G (zeros compared without sign, from above on branch cuts), and atanh is infinite at 1 and -1.",
 "all f32 and f64 values, infinities and NaNs included",
 "The tests sample a few of the special arguments; every pairing of a special part with an arbitrary other part counts.",
 ["crates/cglinalg_core/src/complex.rs", "crates/cglinalg_core/src/vector.rs", "crates/cglinalg_core/src/matrix.rs"], [("Complex::{cos, acos, sinh, cosh, tanh, asinh, acosh, atanh}", "crates/cglinalg_core/src/complex.rs"), ("is_finite", "crates/cglinalg_core/src/matrix.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
