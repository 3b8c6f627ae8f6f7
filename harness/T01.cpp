// T01: results depend on the arguments alone, whatever was called before and whatever other threads do meanwhile.
#include "bvhgen.hpp"
#include "math/aabb.hpp"
#include "math/angles.hpp"
#include "math/brdf.hpp"
#include "math/color.hpp"
#include "math/color-space.hpp"
#include "math/hex.hpp"
#include "math/ibl.hpp"
#include "math/packed-vector.hpp"
#include "math/sh.hpp"
#include "math/sphere.hpp"
#include "math/tone-mapping.hpp"
#include "math/version.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
#include <thread>
#include <atomic>
using namespace pbt; using namespace math;

// The bits of a result. Lanes that are documented as unused are left out by the caller; NaN is one value.
struct Bits
{
	u64 h = 1469598103934665603ull;
	void raw(uint32_t v) { for (int i = 0; i < 4; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
	Bits& operator<<(float v) { uint32_t b; memcpy(&b, &v, 4); raw(v != v ? 0x7fc00000u : b); return *this; }
	Bits& operator<<(uint32_t v) { raw(v); return *this; }
	Bits& operator<<(int v) { raw((uint32_t)v); return *this; }
	Bits& operator<<(u64 v) { raw((uint32_t)v); raw((uint32_t)(v >> 32)); return *this; }
	Bits& operator<<(bool v) { raw(v); return *this; }
	Bits& operator<<(const std::string& t) { for (char ch : t) raw((unsigned char)ch); raw(0x100); return *this; }
	Bits& operator<<(f32x4 v) { return *this << v.getX() << v.getY() << v.getZ() << v.getW(); }
	Bits& operator<<(i32x4 v) { return *this << v.getX() << v.getY() << v.getZ() << v.getW(); }
	Bits& operator<<(u32x4 v) { return *this << v.getX() << v.getY() << v.getZ() << v.getW(); }
	Bits& operator<<(float2 v) { return *this << v.x << v.y; }
	Bits& operator<<(float3 v) { return *this << v.x << v.y << v.z; }
	Bits& operator<<(float4 v) { return *this << v.x << v.y << v.z << v.w; }
	Bits& operator<<(int2 v) { return *this << v.x << v.y; }
	Bits& operator<<(int3 v) { return *this << v.x << v.y << v.z; }
	Bits& operator<<(int4 v) { return *this << v.x << v.y << v.z << v.w; }
	Bits& operator<<(uint2 v) { return *this << v.x << v.y; }
	Bits& operator<<(uint3 v) { return *this << v.x << v.y << v.z; }
	Bits& operator<<(uint4 v) { return *this << v.x << v.y << v.z << v.w; }
	Bits& operator<<(const f32x4x4& m) { return *this << m.c0 << m.c1 << m.c2 << m.c3; }
	Bits& operator<<(const float4x4& m) { return *this << m.c0 << m.c1 << m.c2 << m.c3; }
	Bits& operator<<(const float3x3& m) { return *this << m.c0 << m.c1 << m.c2; }
	Bits& operator<<(quat q) { return *this << (f32x4)q; }
	Bits& xyz(f32x4 v) { return *this << v.getX() << v.getY() << v.getZ(); }
	Bits& operator<<(const Aabb& a) { return xyz(a.getMin()).xyz(a.getMax()); }
	Bits& operator<<(const Plane& p) { return xyz(p.getNormal()) << p.getDistance(); }
};
// Arguments of one call, all from one number, so that a call can be repeated anywhere. The bits above 32 name one argument which is
// changed: two calls then differ in that one only.
struct In
{
	u64 x; int twist; u64 by; explicit In(u64 seed) : x(seed & 0xffffffffu), twist((int)(seed >> 32 & 255)), by(seed >> 40) { }
	u64 next() { u64 r = splitmix(x); if (twist && --twist == 0) { if (by & 1) r += (1ull << 62) * (1 + (by >> 1)); else r += (1ull << 41) * (1 + (by >> 1)) * 3 + 1; } return r; }
	u64 u(u64 n) { return next() % n; }
	float f(float lo, float hi) { return lo + (hi - lo) * (float)((next() >> 40) * (1.0 / 16777216.0)); }
	float any() { switch (u(4)) { case 0: return (float)((int)u(17) - 8); case 1: return f(-1, 1); case 2: return f(-100, 100); default: return std::exp2(f(-20, 20)) * (u(2) ? 1 : -1); } }
	f32x4 v() { float a = any(), b = any(), c = any(), d = any(); return f32x4(a, b, c, d); }
	f32x4 pos() { float a = f(0.01f, 3), b = f(0.01f, 3), c = f(0.01f, 3), d = f(0.01f, 3); return f32x4(a, b, c, d); }
	f32x4 unit() { for (;;) { float a = f(-1, 1), b = f(-1, 1), c = f(-1, 1); if (a * a + b * b + c * c > 0.01f) return normalize3(f32x4(a, b, c, 0.0f)); } }
	f32x4 p() { float a = f(-9, 9), b = f(-9, 9), c = f(-9, 9); return f32x4(a, b, c, 0.0f); }
	uint32_t i() { return u(2) ? (uint32_t)u(40) : (uint32_t)next(); }
	i32x4 iv() { int a = (int)i(), b = (int)i(), c = (int)i(), d = (int)i(); return i32x4(a, b, c, d); }
	u32x4 uv() { uint32_t a = i(), b = i(), c = i(), d = i(); return u32x4(a, b, c, d); }
	quat q() { auto w = unit(); float a = f(-3, 3); return quat(a, w); }
	f32x4x4 m() { auto a = v(), b = v(), c = v(), d = v(); return f32x4x4(a, b, c, d); }
	f32x4x4 model() { auto t = p(); auto r = q(); auto k = pos(); return calcModel(t, r, k); }
	Aabb box() { auto a = p(), e = pos(); return Aabb(a - e, a + e); }
	Triangle tri() { auto a = p(), b = p(), c = p(); return Triangle(a, b, c); }
	Color col() { return Color(i()); }
};
// The functions which all scalar vectors have.
template<class V> static V take(In& n) { V v; for (int k = 0; k < (int)(sizeof(V) / 4); k++) { if constexpr (std::is_same_v<decltype(v.x), float>) v[k] = n.any(); else v[k] = (decltype(v.x))n.i(); } return v; }
template<class V> static void vecOps(In& n, Bits& b)
{
	auto x = take<V>(n), y = take<V>(n), z = take<V>(n); auto k = take<V>(n).x; auto lo = min(x, y), hi = max(x, y);
	b << x + y << x - y << x * y << x + k << x - k << x * k << k + x << k - x << k * x << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y) << (x == k) << (x < k) << (k < x) << (k >= x) << equal(x, y) << notEqual(x, y) << select(x < y, x, y) << isBinaryLess(x, y) << lo << hi << min(x, y, z) << max(x, y, z) << clamp(z, lo, hi) << toString(x);
	auto w = x; w += y; b << w; w -= k; b << w; w *= z; b << w; w[0] = y.x; b << w << w[1];
}
template<class V> static void fltOps(In& n, Bits& b)
{
	auto x = take<V>(n), y = take<V>(n), z = take<V>(n); float t = n.f(0, 1), k = n.f(0.5f, 2); vecOps<V>(n, b);
	b << x / k << k / y << x / y << -x << fma(x, y, z) << abs(x) << sqrt(abs(x)) << sign(x) << signBits(x) << round(x) << floor(x) << ceil(x) << trunc(x) << dot(x, y) << lengthSq(x) << length(x) << distanceSq(x, y) << distance(x, y) << isClose(x, y) << isClose(x, y, k) << normalize(x) << isNormalized(x) << isNormalized(x, k) << repeat(x) << lerp(x, y, t) << lerpDelta(x, y, t, k) << pow(abs(x), y) << gain(repeat(x), abs(y)) << mod(x, y);
	auto c = repeat(x), a = atan(x, y); b << exp(c) << exp2(c) << expm1(c) << log(abs(x)) << log10(abs(x)) << log2(abs(x)) << log1p(abs(x)) << cbrt(x) << sin(x) << cos(x) << tan(x) << asin(c) << acos(c) << atan(x) << a << sinh(c) << cosh(c) << tanh(x) << asinh(x) << acosh(abs(x) + 1) << atanh(c * 0.5f) << radians(x) << degrees(x);
	if constexpr (sizeof(V) == 12) b << cross(x, y);
}
template<class V> static void intOps(In& n, Bits& b)
{
	auto x = take<V>(n), y = take<V>(n); auto k = take<V>(n).x; decltype(k) d = 1 + (k & 0xff), s = k & 31; auto e = (y & 0xff) + 1; vecOps<V>(n, b);
	b << x / d << x % d << x / e << x % e << (x & y) << (x | y) << (x ^ y) << (x & k) << (x | k) << (x ^ k) << (k & x) << (k | x) << (k ^ x) << ~x << (x << s) << (x >> s) << (x << (y & 31)) << (x >> (y & 31)) << !x; auto w = x; w &= y; b << w; w |= k; b << w; w ^= y; b << w; w <<= s; b << w; w >>= s; b << w; w /= d; b << w; w %= e; b << w;
}
template<class M> static M takeM(In& n) { float f[16]; for (auto& v : f) v = n.any(); M m; memcpy((void*)&m, f, sizeof(M)); return m; }
template<class M, class V> static void matOps(In& n, Bits& b)
{
	auto x = takeM<M>(n), y = takeM<M>(n); auto v = take<V>(n); float k = n.f(0.5f, 2); auto put = [&](const M& m) { float f[sizeof(M) / 4]; memcpy(f, &m, sizeof f); for (float q : f) b << q; };
	put(x * y); put(k + x); put(k - x); put(k * x); put(x + k); put(x - k); put(x * k); put(x / k); put(transpose(x)); put(inverse(x)); b << x * v << v * x << (x == y) << (x != y) << x[1]; auto w = x; w += k; put(w); w *= y; put(w); w -= k; put(w);
}
template<class T> static void moveOps(In& n, Bits& b, T x, void (*put)(Bits&, const T&))
{
	auto v = n.pos(), u = n.p(); v.setW(1); u.setW(0); put(b, x * v); put(b, x / v); put(b, x + u); put(b, x - u); T y = x; y *= v; put(b, y); y += u; put(b, y); y /= v; put(b, y); y -= u; put(b, y); b << (x == y) << (x != y);
}
typedef void (*Op)(In&, Bits&);
static const std::vector<Op>& ops()
{
	static const std::vector<Op> L = {
		[](In& n, Bits& b) { auto x = n.v(), y = n.v(); b << x + y << x - y << x * y << x / y << -x << min(x, y) << max(x, y) << clamp(x, min(x, y), max(x, y)) << fma(x, y, x); },
		[](In& n, Bits& b) { auto x = n.v(); b << abs(x) << sqrt(abs(x)) << round(x) << floor(x) << ceil(x) << trunc(x) << sign(x) << signBits(x) << repeat(x); },
		[](In& n, Bits& b) { auto x = n.v(), y = n.v(); b << (x < y) << (x <= y) << (x > y) << (x >= y) << equal(x, y) << select(x < y, x, y) << isBinaryLess(x, y) << (x == y); },
		[](In& n, Bits& b) { auto x = n.v(), y = n.v(); b << dot4(x, y) << dot3(x, y) << dotV4(x, y) << length3(x) << length4(x) << distance3(x, y) << distance4(x, y) << min3(x) << max3(x) << min4(x) << max4(x); b.xyz(cross3(x, y)).xyz(normalize3(x)); b << normalize4(x) << isNormalized3(x); },
		[](In& n, Bits& b) { auto x = n.pos(), y = n.pos(); f32x4 s, c; sinCos(x, s, c); b << log(x) << exp(x) << pow(x, y) << fastPow(x, y) << s << c; },
		[](In& n, Bits& b) { auto x = n.v(), y = n.v(); float t = n.f(0, 1); b << lerp(x, y, t) << lerpDelta(x, y, t, 0.016f) << x.swizzle<SwW, SwY, SwX, SwZ>() << x.splatX() << x.splatW() << toString(x); },
		[](In& n, Bits& b) { auto x = n.iv(), y = n.iv(); b << x + y << x - y << x * y << (x & y) << (x | y) << (x ^ y) << ~x << min(x, y) << max(x, y) << equal(x, y) << (x < y) << (x > y) << (x << 3) << (x >> 5) << min4(x) << max3(x) << bic(x, y) << select(x < y, x, y); },
		[](In& n, Bits& b) { auto x = n.uv(), y = n.uv(); b << x + y << x - y << x * y << (x & y) << (x | y) << (x ^ y) << ~x << min(x, y) << max(x, y) << equal(x, y) << (x < y) << (x >= y) << (x << 3) << (x >> 5) << min3(x) << max4(x) << bic(x, y) << getTrues(x < y) << areAllTrue(x <= y) << areAnyTrue(x == y ? x : y) << toString(x); },
		[](In& n, Bits& b) { auto x = n.uv() | u32x4(1u); auto y = n.uv() | u32x4(1u); b << x / y << x % y; auto k = n.iv() & i32x4(0xffff); b << k / i32x4(7) << k % i32x4(5); },
		[](In& n, Bits& b) { auto x = n.m(), y = n.m(); auto v = n.v(); b << x * y << x * v << transpose4x4(x) << isBinaryLess(x, y); auto t = transpose3x3(x); b.xyz(t.c0).xyz(t.c1).xyz(t.c2); b.xyz(multiply3x3(x, v)); },
		[](In& n, Bits& b) { auto x = n.model(); b << inverse4x4(x) << inverse((float4x4)x) << inverse((float3x3)x); },
		[](In& n, Bits& b) { auto t = n.p(), k = n.pos(); auto r = n.q(); auto m = calcModel(t, r, k); b << m << extractRotation(m) << extractQuat(extractRotation(m)); b.xyz(extractScale(m)).xyz(getTranslation(m)); f32x4 p, s; quat q; extractTransform(m, p, q, s); b.xyz(p).xyz(s) << q; },
		[](In& n, Bits& b) { auto e = n.p(), t = n.p() + f32x4(20.0f, 1.0f, 3.0f, 0.0f); b << lookAt(e, t) << lookAtQuat(normalize3(t - e)) << rotate(e, t, f32x4::top) << inverseTransRot(lookAt(e, t)); auto m = n.m(); auto k = n.pos(); b << translate(m, k) << translate(k, m) << scale(m, k) << scale(k, m) << rotate(n.q()); },
		[](In& n, Bits& b) { float v = n.f(0.1f, 3), a = n.f(0.3f, 3), z = n.f(0.01f, 1), f = z + n.f(1, 100); b << calcPerspProj(v, a, z, f) << calcPerspProjRevZ(v, a, z, f) << calcPerspProjInfRevZ(v, a, z); },
		[](In& n, Bits& b) { auto x = n.q(), y = n.q(); auto v = n.p(); b << x * y << inverse(x) << conjugate(x) << normalize(x) << slerp(x, y, n.f(0, 1)) << fromEulerAngles(v); b.xyz(x * v).xyz(x.extractEulerAngles()); },
		[](In& n, Bits& b) { auto t = n.tri(); auto p = n.p(); b.xyz(closestPoint(t, p)).xyz(calcBarycentric(t, p)); b << isInside(t, p) << Plane(t) << distance3(Plane(t), p); b.xyz(closestPoint(Plane(t), p)); },
		[](In& n, Bits& b) { auto p = n.p(), q = n.p(), r = n.p(); float t; b.xyz(closestPoint(Line(p, q), r)); b.xyz(closestPoint(Line(p, q), r, t)) << t; b.xyz(closestPoint(Ray(p, q), r)).xyz(closestPoint(Sphere(2.0f, p), q)); },
		[](In& n, Bits& b) { auto x = n.box(), y = n.box(); auto p = n.p(); b << isInside(x, p) << isInside(x, y) << isIntersected(x, y) << x.calcVolume() << x.calcArea() << x; b.xyz(closestPoint(x, p)).xyz(x.getPosition()).xyz(x.getExtent()); x.extend(p); b << x; x.extend(y); b << x; },
		[](In& n, Bits& b) { auto x = n.box(); Ray r(n.p(), n.unit()); b << raycast2(x, r) << raycast1(x, r) << raycast(x, r); auto t = n.tri(); b << isAabbIntersected(x.getPosition(), x.getExtent(), t) << isIntersected(Sphere(n.f(0, 5), n.p()), x) << isIntersected(Sphere(n.f(0, 5), n.p()), Sphere(n.f(0, 5), n.p())); },
		[](In& n, Bits& b) { Plane pl[6]; extractFrustumPlanes((f32x4x4)calcPerspProjRevZ(1.2f, n.f(0.5f, 2), 0.1f, 100) * lookAt(n.p(), n.p() + f32x4(25.0f, 2.0f, 4.0f, 0.0f)), pl); normalizePlanes(pl, 6); for (auto& p : pl) b << p; auto x = n.box(); b << isBehindFrustum(pl, 6, x) << isBehindFrustum(pl, 6, x, n.model()); },
		[](In& n, Bits& b) { auto c = n.col(), d = n.col(); b << (float4)c << (f32x4)c << (uint32_t)c << c.toHex4() << (uint32_t)Color(c.toHex4()) << (uint32_t)Color::fromLinear((f32x4)d) << isBinaryLess(c, d) << (uint32_t)Color((f32x4)d); },
		[](In& n, Bits& b) { auto c = n.pos(); b << rgbToSrgb(c) << srgbToRgb(c) << fastGammaCorrection(c) << fastGammaCorrection(c, 0.4f); b.xyz(rgbToXyz(c)).xyz(xyzToRgb(c)).xyz(xyzToYxy(c)).xyz(yxyToXyz(c)).xyz(rgbToYxy(c)).xyz(yxyToRgb(c)); },
		[](In& n, Bits& b) { auto i = n.i(); b << toHex(i) << toHex((uint16_t)i, 6) << toInt32(toHex(i)) << toInt64(toHex(((u64)i << 20) + 5)); Version v((uint8_t)n.u(256), (uint8_t)n.u(256), (uint8_t)n.u(256)); b << v.toString3(); },
		[](In& n, Bits& b) { psize k = 1 + n.u(60); PackedVector<1> v(k); PackedVector<2> w(k); PackedVector<4> x(k); for (int j = 0; j < 20; j++) { auto a = n.u(k); v.set(a, (uint8_t)n.u(2)); w.set(a, (uint8_t)n.u(4)); x.set(a, (uint8_t)n.u(16)); } for (psize j = 0; j < k; j++) b << (int)v.get(j) << (int)w.get(j) << (int)x.get(j); },
		[](In& n, Bits& b) { float r = n.f(0.02f, 1), h = n.f(0, 1); auto d = n.unit(); b << brdf::ggx(h, r) << brdf::hammersley(n.i(), 0.001f) << brdf::iorToReflectance(1 + h); b.xyz(brdf::importanceSamplingNdfDggx(float2(h, r), r));},
		[](In& n, Bits& b) { float2 st(n.f(-1, 1), n.f(-1, 1)); uint32_t f = (uint32_t)n.u(6); b << ibl::stToDir(st, f) << ibl::coordsToDir(uint3((uint32_t)n.u(64), (uint32_t)n.u(64), f), 1 / 64.0f) << sh::calcSolidAngle(st, 1 / 64.0f); },
		[](In& n, Bits& b) { float k[9], r[9]; for (auto& v : k) v = n.f(-1, 1); sh::computeShBasis((float3)n.unit(), r); for (float v : r) b << v; sh::rotateSh3Bands(k, (float3x3)rotate(n.q()), r); for (float v : r) b << v; sh::windowing(r, n.f(1, 5)); for (float v : r) b << v; b << sh::shmin(k); },
		[](In& n, Bits& b) { f32x4 k[9]; for (auto& v : k) { v = n.pos() * 0.3f; } sh::deringingSH(k); for (auto& v : k) b.xyz(v); sh::shaderPreprocessSH(k); for (auto& v : k) b.xyz(v); },
		[](In& n, Bits& b) { uint32_t a = n.i() | 1; b << (int)calcMipCount(a) << calcSizeAtMip(a, (uint8_t)n.u(8)); b << repeat(n.any()) << gain(n.f(0, 1), n.f(0.5f, 3)) << lerpDelta(n.any(), n.any(), n.f(0, 1), 0.02f) << radians(n.any()) << degrees(n.any()); },
		fltOps<float2>, fltOps<float3>, fltOps<float4>, intOps<int2>, intOps<int3>, intOps<int4>, intOps<uint2>, intOps<uint3>, intOps<uint4>, matOps<float2x2, float2>, matOps<float3x3, float3>, matOps<float4x4, float4>,
		[](In& n, Bits& b) { moveOps<Aabb>(n, b, n.box(), [](Bits& b, const Aabb& x) { b << x; }); auto x = n.box(), y = n.box(); auto p = n.p(), k = n.pos(); x.translate(p); b << x; x.scale(k); b << x; x.shrink(y); b << x; x.setSize(k); b << x; x.setSize(k, p); b << x; x.setExtent(k); b << x; x.setExtent(k, p); b << x << x.trySet(p, n.p()) << x << x.getSize() << isBinaryLess(x, y); f32x4 e, c; y.getExtent(e, c); b.xyz(e).xyz(c); y.setMin(y.getMin() - k); y.setMax(y.getMax() + k); b << y; },
		[](In& n, Bits& b) { moveOps<Line>(n, b, Line(n.p(), n.p()), [](Bits& b, const Line& x) { b.xyz(x.start).xyz(x.end); }); moveOps<Triangle>(n, b, n.tri(), [](Bits& b, const Triangle& x) { b.xyz(x.p0).xyz(x.p1).xyz(x.p2); }); Ray r(n.p(), n.unit()); moveOps<Ray>(n, b, r, [](Bits& b, const Ray& x) { b.xyz(x.origin).xyz(x.getDirection()); }); auto x = n.box(); b << raycastI(x, r) << raycast1I(x, r) << raycast2I(x, r); r.setDirection(n.p()); b.xyz(r.getDirection()); Sphere s(n.f(0, 5), n.p()); b << isInside(s, n.p()); s.setPosition(n.p()); s.setRadius(n.f(1, 2)); b.xyz(s.getPosition()) << s.getRadius(); Plane p(n.unit(), n.f(-5, 5), false); b << distance3(p, n.p()); b.xyz(closestPoint(p, n.p())); Plane q(n.tri()); b << q; },
		[](In& n, Bits& b) { auto c = n.col(), d = n.col(); uint8_t k = (uint8_t)n.u(256); float f = n.f(-1, 2); b << (c == d) << (c != d) << (c < d) << (c > d) << (c <= d) << (c >= d) << (c == k) << (c != k) << (c < k) << (c > k) << (c <= k) << (c >= k) << (k == c) << (k != c) << (k < c) << (k > c) << (k <= c) << (k >= c) << c.toString4() << c.toString3() << c.toHex3() << c.toLinear() << c.getNormR() << c.getNormG() << c.getNormB() << c.getNormA() << (float2)c << (float3)c; d.setNormR(f); d.setNormG(f * 0.5f); d.setNormB(1 - f); d.setNormA(f * f); b << (uint32_t)d << (uint32_t)Color(float3(f, f * 0.5f, 1 - f)) << (uint32_t)Color(float2(f, 0.25f)); },
		[](In& n, Bits& b) { float x = n.any(), y = n.any(), z = n.any(); int i = (int)n.i(), j = (int)n.i(), k = (int)n.i(); b << min(x, y, z) << max(x, y, z) << min(i, j, k) << max(i, j, k) << lerp(x, y, n.f(0, 1)) << sign(x); float w = n.f(1, 9), h = n.f(1, 9), d = n.f(1, 9); b << calcOrthoProj(float2(-w, w), float2(-h, h * 2), float2(d, d + h)) << calcOrthoProjRevZ(float2(-w, w), float2(-h, h * 2), float2(d, d + h)) << calcMipCount(uint2((uint32_t)i | 1, (uint32_t)j)) << calcMipCount(uint3((uint32_t)i | 1, (uint32_t)j, (uint32_t)k)) << calcSizeAtMip(uint2((uint32_t)i, (uint32_t)j), (uint8_t)(k & 7)) << calcSizeAtMip(uint3((uint32_t)i, (uint32_t)j, (uint32_t)k), (uint8_t)(k & 7)); Version v((uint32_t)i), u((uint32_t)j); b << (v < u) << (v > u) << (v <= u) << (v >= u) << (v == u) << (v != u) << v.toString4() << v.toString2() << v.toString1() << (uint32_t)u; },
		[](In& n, Bits& b) { auto v = n.v(); auto m = n.m(); // named constants, taken together with arguments
			b << v + f32x4::zero << v * f32x4::one << v * f32x4::minusOne << min(v, f32x4::max) << max(v, f32x4::minusInf); b.xyz(f32x4::top * v).xyz(f32x4::left + v).xyz(f32x4::bottom).xyz(f32x4::right).xyz(f32x4::front).xyz(f32x4::back); b << m * f32x4x4::identity << f32x4x4::zero << f32x4x4::one << quat::identity << float4x4::identity << float3x3::identity;
			b << Aabb::zero << Aabb::one << Aabb::two << Aabb::half << Aabb::full << Aabb::inf << Plane::left << Plane::top << Plane::front; b.xyz(Ray::left.getDirection()).xyz(Ray::bottom.getDirection()).xyz(Ray::back.getDirection()); b << Sphere::one.getRadius() << Sphere::two.getRadius() << Sphere::half.getRadius() << (uint32_t)Color::grey << (uint32_t)Color::cyan << i32x4::minusOne << u32x4::one << float3::top << float2::one << float4::minusOne; },
		[](In& n, Bits& b) { // a Bvh of its own
			std::vector<Aabb> boxes; uint32_t k = 1 + (uint32_t)n.u(60); Aabb root = n.box(); boxes.push_back(root); for (uint32_t i = 1; i < k; i++) { boxes.push_back(n.box()); root.extend(boxes.back()); } Bvh t(boxes.data(), root, k);
			for (int round = 0; round < 2; round++) { for (auto& d : t.getNodes()) b << d.aabb << d.isLeaf() << d.getLeftNode(); for (auto p : t.getPrimitives()) b << p; Plane pl(n.unit(), n.f(-5, 5), false); std::vector<uint32_t> out(k); uint32_t m = t.collectInFrustum(&pl, 1, out.data()); b << m; for (uint32_t i = 0; i < m; i++) b << out[i]; k = 1 + k / 2; root = boxes[0]; for (uint32_t i = 1; i < k; i++) root.extend(boxes[i]); t.recreate(boxes.data(), root, k); } },
	};
	return L;
}
static u64 call(uint32_t op, u64 seed) { In n(seed); Bits b; ops()[op](n, b); return b.h; }
// What every operation gives while the program is still initialising its global objects.
struct Early { std::vector<u64> h; Early() { for (uint32_t k = 0; k < 4 * ops().size(); k++) h.push_back(call(k / 4, k % 4 * 0x12345u)); } };
static const Early early;
struct Call { uint32_t op; u64 seed; u64 want; };
static std::vector<Call> calls(Src& s, int most)
{
	std::vector<Call> L; int n = (int)s.range(1, most); bool same = s.chance(1, 3); uint32_t op = (uint32_t)s.draw(ops().size() - 1);
	for (int i = 0; i < n; i++) { if (!same && i) op = (uint32_t)s.draw(ops().size() - 1); u64 seed = s.chance(1, 3) ? s.draw(3) : s.draw(0xffffffffu); if (i && s.chance(1, 2)) { op = L[i - 1].op; seed = (L[i - 1].seed & 0xffffffffu) | s.range(1, s.pick({ 14, 40, 120, 6 })) << 32 | s.draw(7) << 40; } L.push_back({ op, seed, 0 }); s.say("op", op); s.say("seed", (double)seed); }
	return L;
}
// Several threads at once, started together.
template<class F> static void together(int threads, F f)
{
	std::atomic<int> ready{ 0 }; std::vector<std::thread> T; for (int t = 0; t < threads; t++) T.emplace_back([&, t] { ready++; while (ready < threads) std::this_thread::yield(); f(t); }); for (auto& t : T) t.join();
}
// Several threads run the same calls in different orders, in a process of their own where nothing of the library ran before (so that
// whatever is set up by the first call is set up by all of them at once), or ran once.
LAW(threads, 0.1, "two threads at least and more than one call")
{
	int n = (int)s.range(2, 4); auto L = calls(s, 8); std::vector<u64> shift; for (int t = 0; t < n; t++) shift.push_back(s.draw(L.size() - 1)); bool warm = s.chance(1, 4); s.say("threads", n); s.say("warm", warm); c.trivialIf(L.size() < 2);
	fflush(stdout); fflush(stderr); pid_t p = fork(); c.assume(p >= 0);
	if (p == 0)
	{
		alarm(60); bool bad = false; if (warm) for (auto& k : L) k.want = call(k.op, k.seed); std::vector<std::vector<u64>> got(n, std::vector<u64>(L.size() * 3));
		together(n, [&](int t) { for (size_t i = 0; i < got[t].size(); i++) { auto& k = L[(i + shift[t]) % L.size()]; got[t][i] = call(k.op, k.seed); } });
		if (!warm) for (auto& k : L) k.want = call(k.op, k.seed);
		for (int t = 0; t < n; t++) for (size_t i = 0; i < got[t].size(); i++) bad |= got[t][i] != L[(i + shift[t]) % L.size()].want;
		_exit(bad ? 42 : 0);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), "a call gives other bits while %d threads run than alone", n);
	c.check(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "%d threads do not come to an end", n);
	c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%d threads: %s", n, WIFEXITED(st) ? fmt("exit status %d (a data race or another sanitizer report)", WEXITSTATUS(st)).c_str() : fmt("signal %d", WTERMSIG(st)).c_str());
}
// Any history of calls: every repetition gives the bits of the first time.
LAW(history, 1, "two calls at least, with different arguments")
{
	auto L = calls(s, 12); c.trivialIf(L.size() < 2 || (L[0].op == L[1].op && L[0].seed == L[1].seed)); for (auto& k : L) k.want = call(k.op, k.seed);
	int n = (int)s.range(1, 24); for (int i = 0; i < n; i++) { auto& k = L[s.draw(L.size() - 1)]; u64 got = call(k.op, k.seed); c.check(got == k.want, "call %u of operation %u with arguments %llu: %016llx the first time, %016llx after other calls", i, k.op, (unsigned long long)k.seed, (unsigned long long)k.want, (unsigned long long)got); }
}
// What a call gives after others of its kind is what it gives in a process that makes no other call.
LAW(alone, 0.1, "the calls differ")
{
	std::vector<Call> L; uint32_t op = (uint32_t)s.draw(ops().size() - 1); u64 seed = s.draw(0xffffffffu); s.say("op", op); s.say("seed", (double)seed); int n = (int)s.range(2, 4); for (int i = 0; i < n; i++) L.push_back({ op, i ? seed | s.range(1, s.pick({ 14, 40, 120, 6 })) << 32 | s.draw(7) << 40 : seed, 0 }); c.trivialIf(L[1].seed == L[0].seed);
	auto inChild = [&](size_t from) { int fd[2]; c.assume(pipe(fd) == 0); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); c.assume(false); }
		if (p == 0) { alarm(60); for (size_t i = from; i < L.size(); i++) { u64 h = call(L[i].op, L[i].seed); if (write(fd[1], &h, 8) != 8) _exit(3); } _exit(0); }
		close(fd[1]); std::vector<u64> r; u64 h; ssize_t k; while ((k = read(fd[0], &h, 8)) == 8 || (k < 0 && errno == EINTR)) if (k == 8) r.push_back(h); close(fd[0]); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } c.check(r.size() == L.size() - from, "calls in a process of their own come to no end"); return r; };
	auto all = inChild(0); for (size_t i = 1; i < L.size(); i++) { u64 own = inChild(i)[0]; c.check(own == all[i], "operation %u gives %016llx after %zu other calls, %016llx in a fresh process", op, (unsigned long long)all[i], i, (unsigned long long)own); }
}
LAW(before_main, 0.3, "the arguments differ from the simplest ones")
{
	uint32_t op = (uint32_t)s.draw(ops().size() - 1), k = (uint32_t)s.draw(3); s.say("op", op); s.say("arguments", k); c.trivialIf(k == 0); u64 got = call(op, k * 0x12345u), want = early.h[op * 4 + k]; c.check(got == want, "operation %u gives %016llx, but gave %016llx to a global object", op, (unsigned long long)got, (unsigned long long)want);
}
struct Query { std::vector<Plane> planes; std::vector<uint32_t> want; };
static std::vector<uint32_t> collect(Bvh& b, const Query& q, uint32_t n, std::stack<Bvh::Node*>* st) { std::vector<uint32_t> o(n); uint32_t k = b.collectInFrustum(q.planes.data(), (uint8_t)q.planes.size(), o.data(), st); o.resize(std::min(k, n)); return o; }
static Query query(Src& s, const Scene& sc) { Query q; int n = (int)s.range(1, 3); for (int i = 0; i < n; i++) { D3 d = dir(s, "n"); auto& t = sc.boxes[s.draw(sc.n - 1)]; q.planes.push_back(Plane(P(s, d), (float)-ddot(d, s.draw(1) ? t.lo : t.hi), false)); } return q; }
// One Bvh is queried by several threads with node stacks of their own, while others rebuild Bvhs from the same primitives.
LAW(bvh_threads, 0.06, "two threads at least and more than one node")
{
	Scene sc = scene(s, false); Bvh b = sc.make(lib(s, sc.root)); c.trivialIf(b.getNodes().size() < 2); int n = (int)s.range(2, 4), builders = (int)s.range(0, 2); Aabb root = lib(s, sc.root);
	std::vector<Query> Q; for (int t = 0; t < n; t++) { Q.push_back(query(s, sc)); Q.back().want = collect(b, Q.back(), sc.n, nullptr); } s.say("threads", n); s.say("builders", builders);
	std::vector<std::vector<uint32_t>> got(n); std::vector<char> same(builders + 1, 1);
	together(n + builders, [&](int t) {
		if (t < n) { std::stack<Bvh::Node*> own; for (int k = 0; k < 4; k++) got[t] = collect(b, Q[(t + k) % n], sc.n, &own); }
		else { Bvh mine; for (int k = 0; k < 2; k++) sc.build(mine, root); same[t - n] = mine.getNodes().size() == b.getNodes().size() && mine.getPrimitives() == b.getPrimitives(); } });
	for (int t = 0; t < n; t++) c.check(got[t] == Q[(t + 3) % n].want, "a query with its own node stack finds %zu primitives while %d threads run, %zu alone", got[t].size(), n + builders, Q[(t + 3) % n].want.size());
	for (int t = 0; t < builders; t++) c.check(same[t], "a Bvh built while other threads run differs from one built alone");
}
// The same nested in one thread: the callbacks of a traversal query the Bvh with a stack of their own, and build and walk other Bvhs.
LAW(bvh_nested, 0.4, "more than one node is visited")
{
	Scene sc = scene(s, false); Bvh b = sc.make(lib(s, sc.root)); Bvh copy = b; Query q = query(s, sc), q2 = query(s, sc); q.want = collect(b, q, sc.n, nullptr); q2.want = collect(b, q2, sc.n, nullptr); Aabb root = lib(s, sc.root);
	std::vector<char> pass(b.getNodes().size()); for (auto& p : pass) p = !s.chance(1, 8); const auto* base = b.getNodes().data();
	auto visit = [&](bool nested, std::vector<uint32_t>& nodes, std::vector<uint32_t>& prim) {
		uint32_t count = 0;
		auto inner = [&] { if (!nested || count++ % 3) return; std::stack<Bvh::Node*> own; c.check(collect(b, q, sc.n, &own) == q.want, "a query inside of a traversal finds something else"); c.check(collect(copy, q2, sc.n, nullptr) == q2.want, "a query of a copy inside of a traversal finds something else");
			if (count == 4) { Bvh other; sc.build(other, root); c.check(other.getPrimitives() == b.getPrimitives() && other.getNodes().size() == pass.size(), "a Bvh built inside of a traversal differs"); } };
		b.traverse([&](const Bvh::Node& n) { size_t i = &n - base; c.check(i < pass.size(), "a node outside of the tree is visited"); nodes.push_back((uint32_t)i); inner(); return (bool)pass[i]; }, [&](uint32_t f, uint32_t k) { for (uint32_t i = f; i < f + k; i++) prim.push_back(b.getPrimitives()[i]); inner(); }); };
	std::vector<uint32_t> n1, p1, n2, p2; visit(false, n1, p1); visit(true, n2, p2); c.trivialIf(n1.size() < 2); c.check(n1 == n2 && p1 == p2, "a traversal reaches %zu primitives, with queries inside of it %zu", p1.size(), p2.size());
	// a copy and a moved Bvh are Bvhs of their own
	Bvh moved = std::move(copy); c.check(collect(moved, q, sc.n, nullptr) == q.want, "a moved Bvh finds something else"); Bvh second = moved; uint32_t half = 1 + sc.n / 2; std::vector<Aabb> few; Aabb r = lib(s, sc.boxes[0]); for (uint32_t i = 0; i < half; i++) { few.push_back(lib(s, sc.boxes[i])); r.extend(few.back()); } moved.recreate(few.data(), r, half);
	c.check(collect(second, q2, sc.n, nullptr) == q2.want, "rebuilding a Bvh changes its copy"); c.check(collect(b, q2, sc.n, nullptr) == q2.want, "rebuilding a copy changes the Bvh");
}
PBT_MAIN()
