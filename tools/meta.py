#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json: run after changing a property or adding a harness."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/math/"
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

ISA = "and for every build configuration (SSE2 baseline, SSE4.1, AVX2, portable fallback; clang and gcc)"
prop("V01", "f32x4 operations are lane-wise float operations, identical on every SIMD path",
     "Every f32x4 constructor, accessor, swizzle, load/store, conversion, operator, comparison mask, select, min/max/clamp, floor/ceil/trunc/round/fract, abs/sign, bit copy and reduction (min3/max4/...) gives in each lane exactly what the scalar float operation gives on that lane (mod is exact only for operands of one sign; round may break ties either way). Lanes never leak into each other, and a store writes exactly 16 bytes. The results are the same whichever instruction set the library is compiled for.",
     ["inputs", "configurations"], "for all float bit patterns in all lanes (zeros, denormals, infinities and extreme magnitudes included) " + ISA,
     "Unit tests check a few small integers in one configuration; each operation has three or four implementations chosen by the preprocessor, and mistakes show only on special lanes or values (negative zero, ties, values above 2^31).",
     [I + "simd/vector/float.hpp", I + "simd/types.hpp"], [("class f32x4 and its free functions", I + "simd/vector/float.hpp"), ("instruction set selection", I + "simd/types.hpp")])
prop("V02", "i32x4 operations are lane-wise signed 32-bit operations",
     "Every i32x4 operation (constructors, accessors, swizzles, + - * / % & | ^ ~ ! << >> with vectors and numbers, compound assignment, comparison masks, select, min/max/clamp, min3/max4 reductions, abs, isBinaryLess, conversions, toString) gives in each lane exactly the signed two's complement 32-bit result. Right shift is arithmetic, arithmetic wraps, and division by zero and INT32_MIN / -1 are outside the domain.",
     ["inputs", "configurations"], "for all 32-bit lane values " + ISA,
     "A wrong intrinsic (logical instead of arithmetic shift, 16-bit min, one swapped lane) agrees with the tests' small positive numbers.",
     [I + "simd/vector/int.hpp"], [("class i32x4", I + "simd/vector/int.hpp")])
prop("V03", "u32x4 operations are lane-wise unsigned 32-bit operations, with exact mask tests",
     "Every u32x4 operation gives in each lane exactly the unsigned 32-bit result over the whole range 0..2^32-1: comparisons, min, max, clamp and reductions are unsigned. Mask tests (areAllTrue, areAnyTrue, areAllFalse, areAnyFalse, getTrues) and select of u32x4, uint2, uint3 and uint4 masks agree with the individual components; getTrues and select go by the top bit of a lane, whatever its other bits are (the other tests of the scalar types by all the bits).",
     ["inputs", "configurations"], "for all 32-bit lane values, all 16 masks " + ISA,
     "SSE has no unsigned compare, so a signed one passes every test that stays below 2^31.",
     [I + "simd/vector/uint.hpp", I + "vector/uint.hpp"], [("class u32x4", I + "simd/vector/uint.hpp"), ("uint2/3/4 mask tests", I + "vector/uint.hpp")])
prop("V04", "floatN, intN and uintN vectors act component by component",
     "For float2/3/4, int2/3/4 and uint2/3/4 every constructor (including those that mix a smaller vector with numbers), conversion between dimensions and element types, operator[], arithmetic, bitwise, shift and compound operator, comparison mask, mask test (areAllTrue, getTrues, ...), equal/notEqual, select, min, max, clamp, abs/floor/ceil/trunc/round/fract/mod-like function and toString gives, in component i, exactly the scalar result on component i of the operands. isBinaryLess is a strict total order on bit patterns, so vectors can be keys of ordered containers.",
     ["inputs"], "for all component values of all nine vector types",
     "There are nine types with some two hundred hand-written members each; a copy-paste slip in one component of one overload is only visible with distinct values in every component of that overload.",
     [I + "vector/float.hpp", I + "vector/int.hpp", I + "vector/uint.hpp"], [("float2, float3, float4", I + "vector/float.hpp"), ("int2, int3, int4", I + "vector/int.hpp"), ("uint2, uint3, uint4", I + "vector/uint.hpp")])
prop("V05", "Vector exp, log, pow, trigonometric and related functions follow the C library",
     "On each lane the SIMD functions exp, log, pow, fastPow, sinCos and sqrt agree with the C library within a small error (about 1e-6 relative for log, exp, pow and fastPow, 3e-7 absolute for sine and cosine of angles up to some thousands), with the right infinities, zeros and NaN at the edges of exp and log; the result of a lane does not depend on the other lanes. The componentwise functions of float2/3/4 (exp, exp2, expm1, log, log10, log2, log1p, cbrt, sqrt, pow, mod, the trigonometric and hyperbolic functions, their inverses and the two-argument atan) equal the C library function on each component.",
     ["inputs", "configurations"], "for all lane values in the domain of each function " + ISA,
     "The SIMD versions are hand-written polynomial approximations with range reduction; a wrong coefficient or reduction branch shows only in part of the domain.",
     [I + "simd/vector/float.hpp", I + "vector/float.hpp"], [("exp, log, pow, fastPow, sinCos", I + "simd/vector/float.hpp"), ("componentwise std:: calls", I + "vector/float.hpp")])
prop("V06", "Dot, cross, length, distance and normalize follow their definitions",
     "dot, dot3/dot4, cross/cross3, length, lengthSq, distance, distanceSq, isClose and normalize of scalar and SIMD vectors agree with their definitions evaluated in double within a few units of rounding. The 3D variants ignore lane w, the cross product is perpendicular to both operands and anticommutative, and normalize returns unit length and the same direction for every vector whose squared length is a normal float.",
     ["inputs", "configurations"], "for all finite vectors over a wide exponent range, any content of unused lanes " + ISA,
     "These reductions use horizontal shuffles and dpps masks that differ per instruction set; a wrong mask bit only matters when the ignored lane is nonzero.",
     [I + "simd/vector/float.hpp", I + "vector/float.hpp"], [("dot3, dot4, cross3, length3, normalize3, ...", I + "simd/vector/float.hpp"), ("dot, cross, length, normalize of floatN", I + "vector/float.hpp")])
prop("M01", "Matrix construction, access and algebra follow column-major linear algebra",
     "For every matrix type (float2x2 up to float4x4, f32x4x4) the constructors, element access, conversions between types, transpose, +, -, *, / with numbers, compound assignment and comparison follow column-major definitions; matrix*matrix, matrix*vector and vector*matrix equal the textbook products within rounding (multiply3x3 on the leading 3x3 block, whatever the other lanes hold). Multiplication is associative and (AB)^T = B^T A^T (exactly, when every intermediate result is exact), and scalar and SIMD versions agree.",
     ["inputs", "configurations"], "for all matrices with finite entries " + ISA,
     "The tests multiply a few fixed matrices; an index slip in one of nine types and its overloads needs distinct, asymmetric entries to be visible.",
     [I + "matrix/float.hpp", I + "simd/matrix/float.hpp"], [("float2x2..float4x4", I + "matrix/float.hpp"), ("f32x4x4, multiply3x3, transpose", I + "simd/matrix/float.hpp")])
prop("M02", "The inverse of a matrix is its inverse",
     "inverse(float2x2), inverse(float3x3), inverse(float4x4), and inverse4x4(f32x4x4) agree with the exact inverse within a bound proportional to the condition number: A * inverse(A) and inverse(A) * A are the identity and inverse(inverse(A)) is A. This holds for every well-conditioned matrix, not only symmetric or affine ones.",
     ["inputs", "configurations"], "for all invertible matrices of moderate condition number " + ISA,
     "Cofactor expansions have dozens of terms with signs; symmetric or diagonal test matrices hide transposed or swapped cofactors.",
     [I + "matrix/float.hpp", I + "simd/matrix/float.hpp"], [("inverse", I + "matrix/float.hpp"), ("inverse4x4", I + "simd/matrix/float.hpp")])
prop("M03", "Transform composition and extraction are consistent",
     "translate, scale, rotate and calcModel build the matrix that maps points by scaling, then rotating, then translating; in-place variants multiply on the documented side. extractTranslation, extractScale, extractScale2, extractRotation, extractQuat and extractTransform recover the translation, positive scale (large or small) and rotation a model matrix was built from, within rounding.",
     ["inputs", "configurations"], "for all translations, rotations and positive scales of moderate size, points and any unused lanes " + ISA,
     "A test with identity rotation or unit scale cannot distinguish scale from squared scale, row from column scaling, or the order of composition.",
     [I + "matrix/transform.hpp"], [("translate, scale, rotate, calcModel", I + "matrix/transform.hpp"), ("extractTranslation/Scale/Rotation/Transform", I + "matrix/transform.hpp")])
prop("M04", "lookAt and inverse transform helpers map frames as documented",
     "lookAt(from, to, up) is a rigid transform that sends the eye to the origin and the target direction to +Z with up in the positive Y half plane; lookAtQuat gives the unit rotation whose axes are the same orthonormal frame. Both hold for every direction that is not parallel to up (up to a fraction of a degree, where the helpers' epsilon guard begins). inverseTransRot inverts every matrix made of a rotation and a translation exactly (within rounding), giving an affine matrix.",
     ["inputs", "configurations"], "for all eye positions, directions and up vectors that are not parallel " + ISA,
     "Axis-aligned samples cannot tell a frame from its transpose or catch a degenerate cross product in one branch.",
     [I + "matrix/transform.hpp"], [("lookAt, lookAtQuat", I + "matrix/transform.hpp"), ("inverseTransRot", I + "matrix/transform.hpp")])
prop("M05", "Projection matrices map their frustum onto the clip volume",
     "The perspective projections (forward depth, reversed depth, and reversed depth with the far plane at infinity) and orthographic projections (forward and reversed) map the planes, corners and interior of the described view volume to x, y in [-1, 1] (y downwards) and depth in [0, 1]: near is 0 and far 1, the other way round when reversed. Depth is monotonic in distance, points outside of the volume map outside, and w is the view depth (1 for orthographic).",
     ["inputs", "configurations"], "for all fields of view, aspect ratios, near/far planes, orthographic boxes and points " + ISA,
     "Sampling one fov/aspect/near combination does not separate x from y scaling or depth formulas that coincide for near=1.",
     [I + "matrix/projection.hpp"], [("calcPerspProjInfRevZ, calcPerspProjRevZ, calcOrthoProjRevZ, ...", I + "matrix/projection.hpp")])
prop("Q01", "Quaternions form the rotation group and agree with their matrices",
     "For unit quaternions, multiplication composes rotations (with the same composition order as the matrices), inverse and conjugate undo them, and q*v, v*q (the inverse rotation), the rotation matrix of a quaternion, the quaternion of a rotation matrix and the axis-angle constructor all describe one and the same rotation of every vector. Products of unit quaternions stay unit within rounding, rotation preserves length and angles, and quaternions of any length multiply, invert and normalise correctly.",
     ["inputs", "configurations"], "for all axes, angles (full turn and tiny ones included), vectors " + ISA,
     "Signs of individual product terms cancel for axis-aligned or commuting rotations, which is what tests use.",
     [I + "quaternion.hpp", I + "matrix/transform.hpp"], [("class quat, operator*, inverse", I + "quaternion.hpp"), ("rotate, extractQuat", I + "matrix/transform.hpp")])
prop("Q02", "Euler angles and quaternions convert into each other",
     "The quaternion built from Euler angles (pitch about X, yaw about Y, roll about Z) is the rotation by roll after yaw after pitch, and extractPitch, extractYaw, extractRoll and extractEulerAngles give back angles describing the same rotation for every unit quaternion away from gimbal lock, including those with a zero pitch. Pitch and roll stay within a half turn and yaw within a quarter turn either way; at gimbal lock (yaw of a quarter turn) the pitch takes the whole rotation about the remaining axis.",
     ["inputs", "configurations"], "for all Euler angle triples and unit quaternions " + ISA,
     "Round trips fail only on certain planes (zero pitch with non-zero yaw) or quadrants.",
     [I + "quaternion.hpp"], [("quat(eulerAngles), extractPitch/Yaw/Roll", I + "quaternion.hpp")])
prop("Q03", "slerp interpolates along the shortest arc at constant speed",
     "slerp(a, b, t) of unit quaternions is a unit quaternion with endpoints a and b (up to sign), at the angle t times the angle between them from a, on the shortest arc, and agrees with the double-precision formula for near-parallel and near-opposite inputs as well. lerp of numbers and vectors is a + (b - a) t.",
     ["inputs", "configurations"], "for all unit quaternion pairs and t in [0, 1] " + ISA,
     "The near-parallel fallback and sign flip are threshold branches that sample tests do not reach.",
     [I + "quaternion.hpp", I + "vector/float.hpp"], [("slerp", I + "quaternion.hpp"), ("lerp", I + "vector/float.hpp")])
prop("G01", "Planes: distance, normalisation, construction and closest point agree",
     "distance3(plane, p) is the signed distance of p from the plane (dot of unit normal and p, plus the plane's distance); a plane built from a triangle contains its three vertices, with the orientation given by their order, and never a NaN, even if the triangle has two equal vertices. Normalising keeps the plane and makes its normal unit, and closestPoint(plane, p) lies on the plane along the normal from p, with no point of the plane closer.",
     ["inputs", "configurations"], "for all planes, triangles and points " + ISA,
     "A sign error in the plane offset is invisible for planes through the origin.",
     [I + "plane.hpp", I + "triangle.hpp"], [("class Plane, distance3, closestPoint", I + "plane.hpp")])
prop("G02", "Closest point on lines and triangles is the closest point",
     "closestPoint of a line segment, a ray and a triangle returns a point of that set (a segment ends at its end points, a ray starts at its origin) whose distance to the query is no larger than that of any other point of the set, within rounding. It is the query itself when that already belongs to the set.",
     ["inputs", "configurations"], "for all non-degenerate segments and triangles and points in every Voronoi region " + ISA,
     "A segment has three regions and a triangle seven; sample tests rarely visit every one of them.",
     [I + "line.hpp", I + "triangle.hpp"], [("closestPoint(line, p)", I + "line.hpp"), ("closestPoint(triangle, p)", I + "triangle.hpp")])
prop("G03", "Barycentric coordinates and point-in-triangle tests agree with geometry",
     "Barycentric coordinates sum to one and reproduce the point from the vertices for every point of the triangle's plane; isInside(triangle, point) is true exactly for the points of that plane whose coordinates are all non-negative, irrespective of the vertex order and of which edge line the point is collinear with. Points within rounding of the border are judged only where the arithmetic is exact (small integer coordinates: the border belongs to the triangle).",
     ["inputs", "configurations"], "for all non-degenerate triangles and points of their plane " + ISA,
     "Points exactly collinear with an edge or triangles in general position need structured generation.",
     [I + "triangle.hpp"], [("barycentric, isInside", I + "triangle.hpp")])
prop("G04", "Aabb construction, edits and queries match the set of points between min and max",
     "An Aabb behaves as the set of points p with min <= p <= max: constructors, set/trySet, setSize/setExtent, extend and shrink by points and boxes, translation and scaling (also as operators), position, size, extent, area, volume, isInside of points and boxes, closestPoint, == and the isBinaryLess order agree with that model after any sequence of edits, and the unused w lane never influences an answer. trySet rejects boxes with min > max and leaves the box unchanged; Aabb::full and Aabb::inf contain every point.",
     ["inputs", "histories", "configurations"], "for all finite boxes, points, sequences of edits, unused lanes " + ISA,
     "Edits compose, and the unused fourth lane depends on history, so only generated histories show leaks.",
     [I + "aabb.hpp", "source/aabb.cpp"], [("class Aabb", I + "aabb.hpp")])
prop("G05", "Ray-box tests agree with exact slab intersection",
     "A ray cast against an Aabb (yes/no, entry distance, and entry and exit distances; with a ray holding its direction or the reciprocal of it) reports a hit exactly when the ray from its origin in its direction meets the box, and the reported distances are those of the entry and exit point, within rounding. Axis-parallel directions, origins inside the box and any content of unused lanes are covered, rays scaled by a factor start at the scaled origin and run in the scaled direction, and rays shifted by a vector start at the shifted origin; directions are made unit unless asked otherwise.",
     ["inputs", "configurations"], "for all rays and boxes not within rounding of grazing contact " + ISA,
     "Parallel rays produce infinities and NaN in the slab test that random or hand-picked rays never create.",
     [I + "aabb.hpp", I + "ray.hpp"], [("raycast1, raycast2, isAabbIntersected", I + "aabb.hpp"), ("class Ray", I + "ray.hpp")])
prop("G06", "Box-box, box-triangle, sphere and point intersection tests are exact",
     "isIntersected for two boxes, two spheres, sphere and box, the box-triangle test and isInside of a point in a sphere return true exactly when the two sets share a point (two boxes, two spheres, or a box and a triangle that only touch do share one, judged wherever float arithmetic is exact; other cases within rounding of touching excluded), and closestPoint of a sphere is the point of its surface towards the query. Answers are symmetric where both orders exist, do not depend on the order of the triangle's vertices, nor on unused lanes.",
     ["inputs", "configurations"], "for all boxes, spheres, triangles and points " + ISA,
     "Separating-axis tests need a separation along one particular edge-edge axis to exercise each of thirteen axes.",
     [I + "aabb.hpp", "source/aabb.cpp", I + "sphere.hpp"], [("isAabbIntersected(box, box)", I + "aabb.hpp"), ("triangle SAT", "source/aabb.cpp"), ("class Sphere", I + "sphere.hpp")])
prop("G07", "Frustum planes and culling never reject a visible box",
     "extractFrustumPlanes of a projection-view matrix gives six planes whose positive sides together are exactly the clip volume, and isBehindFrustum (with and without a model matrix, for any number of planes) is true exactly if every corner of the transformed box lies behind one common plane (a corner on the plane is not behind it); a box with a point inside the frustum is never reported as behind. Results do not depend on unused lanes.",
     ["inputs", "configurations"], "for all perspective and orthographic cameras, boxes and model matrices of moderate size " + ISA,
     "A swapped plane or a wrong corner choice only rejects some box orientations.",
     [I + "plane.hpp", I + "aabb.hpp"], [("extractFrustumPlanes", I + "plane.hpp"), ("isBehindFrustum", I + "aabb.hpp")])
prop("B01", "A BVH built from any primitives is structurally valid",
     "After every build or rebuild (from triangles or boxes, with own or computed centroids, at least one primitive, any history of rebuilds) the tree has at most 2n-1 nodes, each primitive sits in exactly one leaf, no child is shared, every node's box is the exact bounds of its primitives, and some axis separates the centroids of two siblings; a rebuilt tree equals a freshly built one. Nodes are split by the surface area heuristic: only where that is cheaper than a leaf, at the cheapest of the candidate planes (eight bins per axis). Building never touches memory out of bounds.",
     ["inputs", "histories", "configurations"], "for all primitive sets with finite coordinates (coincident, degenerate, huge, flat) and rebuild sequences, under address and undefined-behaviour sanitizers",
     "Partition code fails on coincident centroids, tied costs or particular counts that a handful of meshes does not contain.",
     [I + "bvh.hpp", "source/bvh.cpp"], [("Bvh::recreate, findSplit, partition", "source/bvh.cpp"), ("class Bvh", I + "bvh.hpp")])
prop("B02", "BVH traversal finds what brute force finds",
     "Traversing a BVH calls back exactly the leaves all of whose ancestors (and themselves) pass the node test, each once, so ray, point, sphere and box queries find every primitive whose box satisfies the query. Collecting in a frustum writes exactly the primitives of the leaves that are not behind any plane, each once, and never loses a primitive with a visible point; an empty tree finds nothing.",
     ["inputs", "histories", "configurations"], "for all generated meshes, boxes, rays, points, frusta",
     "Traversal order and pruning bugs lose hits only for particular trees and ray directions.",
     ["source/bvh.cpp", I + "bvh.hpp"], [("traversal", "source/bvh.cpp")])
prop("U01", "Version packs, unpacks, prints and orders semantic versions",
     "A Version keeps the four numbers (major, minor, patch, build, 0 to 255 each) it was given, converts to and from its packed 32-bit integer without loss and prints its first one to four numbers separated by dots. Its comparison operators order versions lexicographically by (major, minor, patch, build), consistently with each other.",
     ["inputs"], "for all component values", "Ordering mistakes appear only when a higher major has a lower minor or values exceed 127.",
     [I + "version.hpp"], [("struct Version", I + "version.hpp")])
prop("U02", "Hexadecimal conversion round trips",
     "toHex(value, length) gives exactly the last `length` upper-case hexadecimal digits of the value (zero extended for longer lengths) for signed and unsigned integers (of a negative value at most as many digits as its type has), and toInt32 and toInt64 invert it for every value. They accept any number of digits in either case, with or without a 0x or 0X prefix.",
     ["inputs"], "for all 8 to 64-bit values and all lengths from 0 to 40", "Shift amounts at or beyond the type width and sign extension only matter for lengths and values tests do not use.",
     [I + "hex.hpp"], [("toHex, toInt32, toInt64", I + "hex.hpp")])
prop("U03", "PackedVector stores independent small values",
     "A PackedVector<1|2|4> behaves as an array of independent 1, 2 or 4 bit values over any history of set, get (checked and unchecked), resize, copy and move: writing one element changes no other, only the low bits of the written number count, and values keep across growth. Copies are independent of their source, no access leaves the storage, and a count that no memory can hold is refused with an exception.",
     ["histories"], "for all sequences of operations on several packed vectors", "Aliasing between copies needs a history of copy, write and read.",
     [I + "packed-vector.hpp"], [("class PackedVector", I + "packed-vector.hpp")])
prop("U04", "Flag helpers are bit-set operations",
     "For every enum declared with the flags macro, the |, &, ^, ~ operators, their assignments, and ! act as the operations on the underlying bits, for any width of the underlying type. hasAnyFlag is true exactly when the two values share a bit, hasOneFlag exactly when the first value has no bit which the second lacks.",
     ["inputs"], "for all flag values of 8 to 64-bit enums", "Truncation or all-versus-any confusion shows only for multi-bit flag arguments in high bits.",
     [I + "flags.hpp"], [("flag operators", I + "flags.hpp")])
prop("U05", "Mip counts and sizes are exact for every 32-bit size",
     "calcMipCount of a size of at least 1 (number, uint2, uint3, u32x4) is floor(log2(max component)) + 1, calcSizeAtMip halves every component per level rounding down and never below one, and the last mip of a chain has size one.",
     ["inputs"], "for all 32-bit sizes and all mip levels of the chain", "A float logarithm rounds up just below large powers of two, which no test size reaches.",
     [I + "vector/uint.hpp", I + "simd/vector/uint.hpp"], [("calcMipCount, calcSizeAtMip", I + "vector/uint.hpp")])
prop("U06", "Scalar helpers: angles, min and max, lerp, gain, repeat",
     "Conversion between radians and degrees (numbers and vectors), min and max of three values, sign, lerp, time-corrected lerp (lerpDelta: the fraction left after dt is f^dt), gain and repeat (the representative in [0, 1] modulo 1) follow their mathematical definitions for all inputs in their domain, within rounding.",
     ["inputs"], "for all finite inputs of moderate size", "Errors show only for negative arguments, at particular multiples of the period, or on one side of a threshold.",
     [I + "common.hpp", I + "angles.hpp"], [("common helpers", I + "common.hpp"), ("angles", I + "angles.hpp")])
prop("C01", "8-bit colours convert without loss",
     "Color keeps its four channels through construction, packing (at any memory address), hexadecimal and decimal text, the linear colour space, and conversion to normalised floats and back: every byte survives a round trip. Normalised values are clamped to [0, 1] and rounded to the nearest byte, alike in constructors and setters, and comparisons with colours and numbers are true when they hold in every channel.",
     ["inputs"], "for all 8-bit channel values and all normalised floats, inside and outside of [0, 1]", "Truncating instead of rounding loses only some of the 256 values.",
     [I + "color.hpp"], [("struct Color", I + "color.hpp")])
prop("C02", "Colour space conversions invert each other and match their standards",
     "The conversions between linear RGB (sRGB primaries), XYZ and Yxy equal the published matrix and formulas evaluated in double and are linear where the standard is, and each pair of conversions is mutually inverse within rounding, for every chromaticity (colours outside of the gamut included). White maps to the D65 white (0.950, 1, 1.089), and Yxy holds the luminance, then x and y.",
     ["inputs", "configurations"], "for all colours with components in [0, 64]", "One wrong matrix digit passes a black/white test.",
     [I + "color-space.hpp"], [("conversion functions", I + "color-space.hpp")])
prop("C03", "sRGB and gamma curves are standard, monotonic and inverse to each other",
     "sRGB encoding and decoding of a colour equal the standard piecewise curve in every channel, are mutually inverse and monotonic, and fast gamma correction is the power law with the given (or 1/2.2) exponent. Alpha passes through all of them unchanged.",
     ["inputs", "configurations"], "for all non-negative colours", "The linear/power switch of sRGB and per-channel selection need values on both sides of the threshold in one vector.",
     [I + "color-space.hpp", I + "tone-mapping.hpp"], [("rgbToSrgb, srgbToRgb", I + "color-space.hpp"), ("fastGammaCorrection", I + "tone-mapping.hpp")])
prop("R01", "GGX, Hammersley and index-of-refraction helpers match their formulas",
     "The GGX distribution equals its formula and integrates to one over the projected hemisphere, Hammersley points are index/count and the bit-reversed index (one per row and column of the 2^k grid for the first 2^k), and the reflectance of an index of refraction gives the Fresnel reflectance at normal incidence. GGX importance samples are finite unit vectors in the upper hemisphere at the sampled cosine and azimuth, with the distribution as their density.",
     ["inputs", "configurations"], "for all sample indices, roughness values and random numbers in the unit square", "Bit reversal and formula errors affect only some indices or roughness values.",
     [I + "brdf.hpp"], [("brdf functions", I + "brdf.hpp")])
prop("R02", "Cube map directions and coordinates invert each other",
     "The unit direction of a cube map texel, looked up by the face selection rules of the graphics APIs, selects that very texel and face, for all six faces, and adjacent faces agree along their shared edge. The solid angle of a texel is that of its square on the cube, positive, and the solid angles of all texels of a cube sum to 4 pi.",
     ["inputs", "configurations"], "for all faces, coordinates, and texture sizes", "A flipped axis on one face is self-consistent on the others.",
     [I + "ibl.hpp", I + "sh.hpp"], [("coordsToST, stToDir, coordsToDir", I + "ibl.hpp"), ("calcSolidAngle", I + "sh.hpp")])
prop("R03", "Spherical harmonics: orthonormal basis, rotation, windowing, deringing",
     "The three-band basis with its normalisation factors is the real spherical harmonics, orthonormal over the sphere; rotating coefficients by a matrix M gives the function whose value at Md is the old value at d, and the shader preprocessing and irradiance factors turn coefficients into the polynomial of the normal that evaluates the irradiance over pi. Windowing scales each band by its sinc^4 window, the minimum search gives a lower bound of the function, and deringing windows all channels with the largest cutoff (in steps of the bisection between 3 and 13) that leaves no negative value, whatever the direction of the light.",
     ["inputs", "configurations"], "for all directions, band counts and coefficients", "Constants per (l, m) pair are only all exercised by integrating over generated directions.",
     [I + "sh.hpp"], [("computeShBasis, rotate, dering", I + "sh.hpp")])
prop("T01", "Results depend on the arguments alone, in any order of calls and on any thread",
     "Every function is a pure function of its arguments and the object it is called on: repeating a call after any other calls gives the same bits, and so does running calls on separate objects on several threads at once, from the first call on, without a data race, and calls made by the initialisers of global objects, where the named constants already have their values. A built Bvh can be queried by many threads with node stacks of their own, and from within the callbacks of a traversal, while Bvhs are built from the same primitives elsewhere; copies and moved Bvhs are independent.",
     ["histories", "schedules", "inputs", "configurations"], "for all sequences of calls, all assignments of calls to threads, and all generated scenes, under the thread sanitizer",
     "Hidden state (a cache, a shared scratch buffer, a table filled by the first call) is right in every test that calls functions once, in one order, on one thread.",
     [I + f for f in ("simd/vector/float.hpp", "simd/matrix/float.hpp", "matrix/transform.hpp", "quaternion.hpp", "aabb.hpp", "plane.hpp", "color-space.hpp", "sh.hpp", "brdf.hpp", "ibl.hpp", "hex.hpp", "packed-vector.hpp", "bvh.hpp")] + ["source/bvh.cpp", "source/aabb.cpp"],
     [("collectInFrustum with a local node stack", "source/bvh.cpp"), ("function-local static constants", I + "color-space.hpp"), ("whole library", "include/math")])

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    spec = json.load(open(os.path.join(HERE, "harness", "props.json")))
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in spec:
            tech = "property-based testing: generated inputs against a reference (" + spec[i].get("oracle", "scalar or double-precision model") + "), with shrinking; libFuzzer over the same laws in the thorough tier"
            checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i, technique=tech, level="exploration",
                               level_note=spec[i].get("note", "No violation in the generated cases; not a proof. Configurations: " + ", ".join(spec[i]["configs"]))))
        else: na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks,", len(na), "unclaimed")
NA = {}
main()
