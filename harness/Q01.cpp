// Q01: the quaternion group, its action on vectors and its matrices, against Hamilton products and rotation matrices in double.
#include "xform.hpp"
using namespace pbt; using namespace math;
static double qlen(D4 q) { return std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); }
static void same4(Case& c, D4 g, D4 w, double tol, const char* what) { for (int i = 0; i < 4; i++) if (!(std::fabs(g[i] - w[i]) <= tol)) c.near(g[i], w[i], tol, fmt("%s, component %d", what, i).c_str()); }
LAW(group, 4, "both rotations have four non-zero components")
{
	D4 a = anyRot(s, "a"), b = anyRot(s, "b"), d = anyRot(s, "c"); c.trivialIf(!generalRot(a) || !generalRot(b)); quat x = Q(a), y = Q(b), z = Q(d); D4 ab = qmul(a, b);
	same4(c, dq(x * y), ab, 4e-7, "a * b"); quat t = x; quat& r = (t *= y); same4(c, dq(t), ab, 4e-7, "a *= b"); c.check(&r == &t, "*= returns another object"); t = x; t *= t; same4(c, dq(t), qmul(a, a), 4e-7, "a *= a");
	c.near(qlen(dq(x * y)), 1, 1e-6, "length of a product"); same4(c, dq((x * y) * z), dq(x * (y * z)), 1e-6, "associativity"); same4(c, dq(quat::identity * x), a, 0, "identity * a"); same4(c, dq(x * quat::identity), a, 0, "a * identity"); same4(c, dq(quat()), { 0, 0, 0, 1 }, 0, "default quaternion");
	same4(c, dq(conjugate(x)), { -a[0], -a[1], -a[2], a[3] }, 0, "conjugate"); same4(c, dq(x * inverse(x)), { 0, 0, 0, 1 }, 6e-7, "a * inverse(a)"); same4(c, dq(inverse(x) * x), { 0, 0, 0, 1 }, 6e-7, "inverse(a) * a"); same4(c, dq(inverse(x * y)), dq(inverse(y) * inverse(x)), 1e-6, "inverse of a product");
	#if defined(MATH_SIMD_SUPPORT_SSE) || defined(MATH_SIMD_SUPPORT_NEON)
	same4(c, dq(quat(((f32x4)x).data)), a, 0, "quaternion of a register");
	#endif
	// not only unit quaternions have an inverse
	double k = std::exp2(s.uni(-6, 6)); s.say("k", k); D4 e = a; for (auto& v : e) v = (float)(v * k); same4(c, dq(Q(e) * inverse(Q(e))), { 0, 0, 0, 1 }, 1e-6, "q * inverse(q) of any length"); same4(c, dq(math::normalize(Q(e))), qunit(e), 6e-7, "normalize"); same4(c, dq(conjugate(Q(e))), { -e[0], -e[1], -e[2], e[3] }, 0, "conjugate of any length"); same4(c, dq(Q(e) * y), qmul(e, b), 4e-7 * k, "product of any length");
}
LAW(action, 5, "general rotation and vector")
{
	D4 a = anyRot(s, "a"), b = anyRot(s, "b"); D3 v = scaled(s, "v", vec3(s, "v", 20)), w = scaled(s, "w", vec3(s, "w", 20)); c.trivialIf(!generalRot(a) || v[0] * v[1] * v[2] == 0); quat x = Q(a), y = Q(b); float j = junk(s); f32x4 p = simd(v, j), o = simd(w, j); DM R = dquat(qunit(a)); double tol = dlen(v) * 1.5e-6;
	D3 g = d3(x * p), want = xyz(dmulv(R, { v[0], v[1], v[2], 0 })); vecNear(c, g, want, tol, "q * v"); vecNear(c, d3(p * x), xyz(dmulv([&] { DM t = R; for (int i = 0; i < 4; i++) for (int k = 0; k < i; k++) std::swap(t.m[i][k], t.m[k][i]); return t; }(), { v[0], v[1], v[2], 0 })), tol, "v * q");
	vecNear(c, d3(multiply3x3(rotate(x), p)), want, tol, "rotate(q) * v"); vecNear(c, d3(inverse(x) * (x * p)), v, tol * 2, "inverse(q) * (q * v)"); vecNear(c, d3((x * y) * p), d3(x * (y * p)), tol * 2, "(a * b) * v = a * (b * v)"); vecNear(c, d3(rotate(x * y) * simd(v, 0.0f)), d3(rotate(x) * (rotate(y) * simd(v, 0.0f))), tol * 2, "rotate(a * b) = rotate(a) * rotate(b)");
	c.near(dlen(g), dlen(v), tol, "length after rotation"); c.near(ddot(g, d3(x * o)), ddot(v, w), dlen(v) * dlen(w) * 4e-6, "angle after rotation"); vecNear(c, d3(x * cross3(p, o)), d3(cross3(x * p, x * o)), dlen(v) * dlen(w) * 5e-6, "rotation of a cross product"); vecNear(c, d3(x * (p + o)), d3(x * p + x * o), (dlen(v) + dlen(w)) * 2e-6, "linearity");
	quat neg = Q({ -a[0], -a[1], -a[2], -a[3] }); vecNear(c, d3(neg * p), want, tol, "-q describes the same rotation");
}
LAW(axis_angle, 3, "the axis is not a coordinate axis and the angle not zero")
{
	D3 ax = dir(s, "axis"); double an = s.chance(1, 6) ? s.uni(-12, 12) : angle(s, "angle", 6.3); float fa = (float)an; if (s.verbose) s.say("float angle", fa); ax = fl(ax); c.trivialIf(ax[0] * ax[1] * ax[2] == 0 || fa == 0); float j = junk(s); D4 want = daxis(ax, fa);
	same4(c, dq(quat(fa, simd(ax, j))), want, 1.5e-6, "quat(angle, axis)"); D3 v = vec3(s, "v", 10), u = dnorm(ax); double co = std::cos((double)fa), si = std::sin((double)fa); D3 rod = v * co + dcross(u, v) * si + u * (ddot(u, v) * (1 - co)); vecNear(c, d3(quat(fa, simd(ax, j)) * simd(v, j)), rod, dlen(v) * 6e-6, "Rodrigues' formula");
	same4(c, dq(quat(fa, simd(ax)) * quat(-fa, simd(ax))), { 0, 0, 0, 1 }, 3e-6, "turning back"); D4 h = dq(quat(fa * 0.5f, simd(ax)) * quat(fa * 0.5f, simd(ax))); same4(c, h, want, 4e-6, "two half turns");
}
LAW(matrix_round_trip, 4, "the rotation has four non-zero components")
{
	D4 a = anyRot(s, "a"); if (s.chance(1, 3)) { int k = (int)s.draw(3); double big = s.pick({ 0.999, 0.6, 0.5 }); a[k] = 0; double r = qlen(a); if (r > 0) for (auto& v : a) v *= std::sqrt(1 - big * big) / r; a[k] = big; a = fl(qunit(a)); saw(s, "a'", a); } c.trivialIf(!generalRot(a));
	int big = 0; for (int i = 1; i < 4; i++) if (std::fabs(a[i]) > std::fabs(a[big])) big = i; c.cls(fmt("largest component %d", big).c_str());
	quatNear(c, dq(extractQuat(rotate(Q(a)))), qunit(a), 2e-6, "extractQuat(rotate(q))"); DM R = fl(dquat(qunit(a))); matNear(c, dm(rotate(extractQuat(fm(R)))), R, 4e-6, "rotate(extractQuat(m))"); DM g = dm(rotate(Q(a))); for (int i = 0; i < 4; i++) { c.near(g.m[3][i], i == 3, 0, "rotate has no translation"); c.near(g.m[i][3], i == 3, 0, "rotate is affine"); }
}
PBT_MAIN()
