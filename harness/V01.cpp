// V01: every f32x4 operation is the IEEE scalar operation on each lane, in every instruction-set configuration.
#include "math.hpp"
using namespace pbt; using namespace math;
typedef float (*Un)(float); typedef float (*Bi)(float, float);
static const char* L[4] = { "lane x", "lane y", "lane z", "lane w" };
static void same(Case& c, F4 got, F4 want, const char* what)
{
	for (int i = 0; i < 4; i++) c.check(Case::same(got[i], want[i]), "%s %s: got %.9g, expected %.9g", what, L[i], got[i], want[i]);
}
// a correctly rounded quotient or root, or one within 2 ulp of it
static void ulp2(Case& c, F4 got, F4 want, const char* what)
{
	for (int i = 0; i < 4; i++)
	{
		if (Case::same(got[i], want[i])) continue;
		double u = std::max((double)std::fabs(want[i]) * 1.1920929e-7, 1.4e-45);
		c.check(std::fabs((double)got[i] - want[i]) <= 2 * u, "%s %s: got %.9g, expected %.9g", what, L[i], got[i], want[i]);
	}
}
template<class F> static F4 map2(F4 a, F4 b, F f) { F4 r; for (int i = 0; i < 4; i++) r[i] = f(a[i], b[i]); return r; }
template<class F> static F4 map1(F4 a, F f) { F4 r; for (int i = 0; i < 4; i++) r[i] = f(a[i]); return r; }

LAW(arithmetic, 3, "at least two different lanes")
{
	F4 a = any4(s, "a"), b = any4(s, "b"); auto x = simd(a), y = simd(b);
	c.trivialIf(a[0] == a[1] && a[1] == a[2] && a[2] == a[3]);
	auto add = [](float p, float q) { return p + q; }; auto sub = [](float p, float q) { return p - q; };
	auto mul = [](float p, float q) { return p * q; }; auto dv = [](float p, float q) { return p / q; };
	same(c, arr(x + y), map2(a, b, add), "a+b"); same(c, arr(x - y), map2(a, b, sub), "a-b");
	same(c, arr(x * y), map2(a, b, mul), "a*b"); ulp2(c, arr(x / y), map2(a, b, dv), "a/b");
	float n = b[0]; F4 nn{ n, n, n, n };
	same(c, arr(x + n), map2(a, nn, add), "a+n"); same(c, arr(x - n), map2(a, nn, sub), "a-n");
	same(c, arr(x * n), map2(a, nn, mul), "a*n"); ulp2(c, arr(x / n), map2(a, nn, dv), "a/n");
	same(c, arr(n + x), map2(nn, a, add), "n+a"); same(c, arr(n - x), map2(nn, a, sub), "n-a");
	same(c, arr(n * x), map2(nn, a, mul), "n*a"); ulp2(c, arr(n / x), map2(nn, a, dv), "n/a");
	auto t = x; t += y; same(c, arr(t), map2(a, b, add), "a+=b"); t = x; t -= y; same(c, arr(t), map2(a, b, sub), "a-=b");
	t = x; t *= y; same(c, arr(t), map2(a, b, mul), "a*=b"); t = x; t /= y; ulp2(c, arr(t), map2(a, b, dv), "a/=b");
	t = x; t += n; same(c, arr(t), map2(a, nn, add), "a+=n"); t = x; t -= n; same(c, arr(t), map2(a, nn, sub), "a-=n");
	t = x; t *= n; same(c, arr(t), map2(a, nn, mul), "a*=n"); t = x; t /= n; ulp2(c, arr(t), map2(a, nn, dv), "a/=n");
	t = x; t = n; same(c, arr(t), nn, "a=n");
	t = x; t += t; same(c, arr(t), map2(a, a, add), "a+=a"); t = x; t -= t; same(c, arr(t), map2(a, a, sub), "a-=a"); t = x; t *= t; same(c, arr(t), map2(a, a, mul), "a*=a"); t = x; t /= t; ulp2(c, arr(t), map2(a, a, dv), "a/=a");
	for (int k = 0; k < 4; k++)
	{
		F4 ak{ a[k], a[k], a[k], a[k] }; t = x; t += t[k]; same(c, arr(t), map2(a, ak, add), "a+=a[k]"); t = x; t -= t[k]; same(c, arr(t), map2(a, ak, sub), "a-=a[k]");
		t = x; t *= t[k]; same(c, arr(t), map2(a, ak, mul), "a*=a[k]"); t = x; t /= t[k]; ulp2(c, arr(t), map2(a, ak, dv), "a/=a[k]"); t = x; t = t[k]; same(c, arr(t), ak, "a=a[k]");
	}
	auto neg = arr(-x); for (int i = 0; i < 4; i++) c.check(neg[i] == -a[i] && std::signbit(neg[i]) != std::signbit(a[i]), "-a %s", L[i]);
}
LAW(comparison, 3, "the lanes do not all compare alike")
{
	F4 a = any4(s, "a"), b = any4(s, "b");
	for (int i = 0; i < 4; i++) if (s.chance(1, 3)) b[i] = a[i]; else if (s.chance(1, 6)) b[i] = std::nextafterf(a[i], s.draw(1) ? INFINITY : -INFINITY);
	saw(s, "b'", b);
	auto x = simd(a), y = simd(b); float n = b[1]; F4 nn{ n, n, n, n };
	int lt = 0; for (int i = 0; i < 4; i++) lt += a[i] < b[i];
	c.trivialIf(lt == 0 || lt == 4);
	auto mask = [&](u32x4 got, F4 p, F4 q, auto f, const char* what)
	{
		U4 g = arr(got); for (int i = 0; i < 4; i++) c.check(g[i] == (f(p[i], q[i]) ? 0xffffffffu : 0u), "%s %s: mask 0x%x", what, L[i], g[i]);
	};
	auto LT = [](float p, float q) { return p < q; }; auto GT = [](float p, float q) { return p > q; };
	auto LE = [](float p, float q) { return p <= q; }; auto GE = [](float p, float q) { return p >= q; };
	auto EQ = [](float p, float q) { return p == q; }; auto NE = [](float p, float q) { return p != q; };
	mask(x < y, a, b, LT, "a<b"); mask(x > y, a, b, GT, "a>b"); mask(x <= y, a, b, LE, "a<=b"); mask(x >= y, a, b, GE, "a>=b");
	mask(x < n, a, nn, LT, "a<n"); mask(x > n, a, nn, GT, "a>n"); mask(x <= n, a, nn, LE, "a<=n"); mask(x >= n, a, nn, GE, "a>=n");
	mask(n < x, nn, a, LT, "n<a"); mask(n > x, nn, a, GT, "n>a"); mask(n <= x, nn, a, LE, "n<=a"); mask(n >= x, nn, a, GE, "n>=a");
	mask(equal(x, y), a, b, EQ, "equal"); mask(notEqual(x, y), a, b, NE, "notEqual");
	bool all = true, alln = true; for (int i = 0; i < 4; i++) { all &= a[i] == b[i]; alln &= a[i] == n; }
	c.check((x == y) == all, "a==b is %d", (int)(x == y)); c.check((x != y) == !all, "a!=b is %d", (int)(x != y));
	c.check((x == n) == alln && (x != n) == !alln && (n == x) == alln && (n != x) == !alln, "comparison with a number");
	// a vector of one value, or all but one lane of it
	{ float m = a[s.draw(3)]; F4 h{ m, m, m, m }; int k = (int)s.draw(3), kind = (int)s.draw(2); if (kind == 1) h[k] = std::nextafterf(m, s.draw(1) ? 3.0f : -5.0f); else if (kind == 2) h[k] = b[k]; bool same = true; for (float v : h) same &= v == m; auto z = simd(h); c.check((z == m) == same && (m == z) == same && (z != m) == !same && (m != z) == !same, "a vector of one value against a number: == is %d, lane %d holds %.9g, the others %.9g", (int)(z == m), k, h[k], m); }
	F4 e = a; if (s.chance(1, 2)) { int k = (int)s.draw(3); e[k] = std::nextafterf(e[k], 3.0f); }
	bool same4 = a == e; c.check((x == simd(e)) == same4 && (x != simd(e)) == !same4, "one-lane difference");
}
LAW(minmax, 2, "some lane of b is below a and some is not")
{
	F4 a = any4(s, "a"), b = any4(s, "b"), d; auto x = simd(a), y = simd(b);
	int lt = 0; for (int i = 0; i < 4; i++) lt += a[i] < b[i]; c.trivialIf(lt == 0 || lt == 4);
	same(c, arr(min(x, y)), map2(a, b, [](float p, float q) { return std::min(p, q); }), "min");
	same(c, arr(max(x, y)), map2(a, b, [](float p, float q) { return std::max(p, q); }), "max");
	c.eqf(min4(x), std::min(std::min(a[0], a[1]), std::min(a[2], a[3])), "min4");
	c.eqf(max4(x), std::max(std::max(a[0], a[1]), std::max(a[2], a[3])), "max4");
	c.eqf(min3(x), std::min(std::min(a[0], a[1]), a[2]), "min3"); c.eqf(max3(x), std::max(std::max(a[0], a[1]), a[2]), "max3");
	F4 lo, hi; for (int i = 0; i < 4; i++) { lo[i] = std::min(a[i], b[i]); hi[i] = std::max(a[i], b[i]); }
	d = any4(s, "v"); F4 w; for (int i = 0; i < 4; i++) w[i] = d[i] < lo[i] ? lo[i] : d[i] > hi[i] ? hi[i] : d[i];
	same(c, arr(clamp(simd(d), simd(lo), simd(hi))), w, "clamp");
}
LAW(rounding, 3, "some lane has a fractional part")
{
	F4 a = any4(s, "a");
	for (auto& v : a) if (s.chance(1, 3)) { double e = std::exp2(s.uni(0, 34)); v = (float)(std::floor(e) + 0.25 * (double)s.irange(0, 3)) * (s.draw(1) ? -1 : 1); }
	saw(s, "a'", a); auto x = simd(a); bool fr = false; for (auto v : a) fr |= std::isfinite(v) && v != std::floor(v); c.trivialIf(!fr);
	same(c, arr(floor(x)), map1(a, [](float v) { return std::floor(v); }), "floor"); same(c, arr(ceil(x)), map1(a, [](float v) { return std::ceil(v); }), "ceil");
	same(c, arr(trunc(x)), map1(a, [](float v) { return std::trunc(v); }), "trunc");
	F4 r = arr(round(x)); // ties may go to even (SSE4.1) or away from zero (documented example): both are nearest
	for (int i = 0; i < 4; i++) c.check(Case::same(r[i], std::round(a[i])) || Case::same(r[i], std::nearbyintf(a[i])), "round %s: got %.9g for %.9g", L[i], r[i], a[i]);
	F4 ab = arr(abs(x)); for (int i = 0; i < 4; i++) c.check(ab[i] == std::fabs(a[i]) && !std::signbit(ab[i]), "abs %s: got %.9g for %.9g", L[i], ab[i], a[i]);
	same(c, arr(sign(x)), map1(a, [](float v) { return std::signbit(v) ? -1.0f : 1.0f; }), "sign");
	int sb = 0; for (int i = 0; i < 4; i++) sb |= (std::signbit(a[i]) ? 1 : 0) << i; c.eqi(signBits(x), sb, "signBits");
	F4 p = map1(a, [](float v) { return std::fabs(v); }); ulp2(c, arr(sqrt(simd(p))), map1(p, [](float v) { return std::sqrt(v); }), "sqrt");
}
LAW(fused, 2, "no lane overflows")
{
	F4 a = any4(s, "a", false), b = any4(s, "b", false), d = any4(s, "c", false); F4 r = arr(fma(simd(a), simd(b), simd(d))); bool fin = true;
	for (int i = 0; i < 4; i++)
	{
		double p = (double)a[i] * b[i], w = p + d[i];
		if (std::fabs(p) > 1e38 || std::fabs(w) > 1e38) { fin = false; continue; }
		// one rounding (fused) or two (multiply, then add)
		c.near(r[i], w, (std::fabs(p) + std::fabs(w)) * 1.2e-7 + 3e-45, "fma lane");
	}
	c.trivialIf(!fin);
}
LAW(selection, 2, "the control lanes differ")
{
	F4 t = any4(s, "t"), f = any4(s, "f"); U4 k = uint4v(s, "control");
	F4 r = arr(select(simd(k), simd(t), simd(f))); int n = 0;
	for (int i = 0; i < 4; i++)
	{
		bool b = k[i] & 0x80000000u; n += b;
		c.check(memcmp(&r[i], b ? &t[i] : &f[i], 4) == 0, "select %s: got %.9g with control 0x%x", L[i], r[i], k[i]);
	}
	c.trivialIf(n == 0 || n == 4);
	// The mask of a comparison drives select lane by lane.
	F4 a = any4(s, "a"), b = any4(s, "b"); F4 q = arr(select(simd(a) < simd(b), simd(t), simd(f)));
	for (int i = 0; i < 4; i++) c.check(memcmp(&q[i], a[i] < b[i] ? &t[i] : &f[i], 4) == 0, "select(a<b) %s", L[i]);
}
LAW(not_a_number, 1, "a lane without NaN stands beside one with NaN")
{
	// NaN in some lanes: it spreads to no other lane, compares like the scalar NaN, and passes through the rounding functions.
	F4 a = any4(s, "a"), b = any4(s, "b"); float q = s.draw(1) ? NAN : -NAN; int ma = (int)s.draw(15), mb = s.draw(1) ? 0 : (int)s.draw(15); for (int i = 0; i < 4; i++) { if (s.chance(1, 3)) b[i] = a[i]; if (ma >> i & 1) a[i] = q; if (mb >> i & 1) b[i] = NAN; } saw(s, "a'", a); saw(s, "b'", b); int m = ma | mb; c.trivialIf(m == 0 || m == 15); auto x = simd(a), y = simd(b); float n = b[s.draw(3)]; F4 nn{ n, n, n, n };
	auto mask = [&](u32x4 got, F4 p, F4 r, auto f, const char* what) { U4 g = arr(got); for (int i = 0; i < 4; i++) c.check(g[i] == (f(p[i], r[i]) ? 0xffffffffu : 0u), "%s %s: mask 0x%x for %g and %g", what, L[i], g[i], p[i], r[i]); };
	#define NC(op) { auto f = [](float p, float r) { return p op r; }; mask(x op y, a, b, f, "a " #op " b"); mask(x op n, a, nn, f, "a " #op " n"); mask(n op x, nn, a, f, "n " #op " a"); }
	NC(<) NC(>) NC(<=) NC(>=) mask(equal(x, y), a, b, [](float p, float r) { return p == r; }, "equal"); mask(notEqual(x, y), a, b, [](float p, float r) { return p != r; }, "notEqual");
	bool all = true; for (int i = 0; i < 4; i++) all &= a[i] == b[i]; c.check((x == y) == all && (x != y) == !all, "a==b is %d", (int)(x == y));
	#define NA(op) { auto f = [](float p, float r) { return p op r; }; same(c, arr(x op y), map2(a, b, f), "a " #op " b"); }
	NA(+) NA(-) NA(*) ulp2(c, arr(x / y), map2(a, b, [](float p, float r) { return p / r; }), "a / b");
	same(c, arr(floor(x)), map1(a, [](float v) { return std::floor(v); }), "floor"); same(c, arr(ceil(x)), map1(a, [](float v) { return std::ceil(v); }), "ceil"); same(c, arr(trunc(x)), map1(a, [](float v) { return std::trunc(v); }), "trunc"); F4 r = arr(round(x)), ab = arr(abs(x)), ng = arr(-x), mn = arr(min(x, y)), mx = arr(max(x, y)), sq = arr(sqrt(x)), sg = arr(sign(x));
	for (int i = 0; i < 4; i++)
	{
		c.check(Case::same(r[i], std::round(a[i])) || Case::same(r[i], std::nearbyintf(a[i])), "round %s: got %.9g for %.9g", L[i], r[i], a[i]); c.check(Case::same(ab[i], std::fabs(a[i])) && !std::signbit(ab[i]), "abs %s: got %.9g for %.9g", L[i], ab[i], a[i]); c.check(Case::same(ng[i], -a[i]), "-a %s: got %.9g for %.9g", L[i], ng[i], a[i]); c.check(sg[i] == (std::signbit(a[i]) ? -1.0f : 1.0f), "sign %s: got %.9g for %.9g", L[i], sg[i], a[i]); if (a[i] != a[i] || a[i] < 0) c.check(sq[i] != sq[i], "sqrt %s: got %.9g for %.9g", L[i], sq[i], a[i]);
		if (!(m >> i & 1)) c.check(Case::same(mn[i], std::min(a[i], b[i])) && Case::same(mx[i], std::max(a[i], b[i])), "min or max %s: got %.9g and %.9g", L[i], mn[i], mx[i]);
	}
}
LAW(lanes, 2, "the four lanes are distinct")
{
	F4 a = any4(s, "a"); float w = s.anyFloat(); auto x = simd(a);
	c.trivialIf(a[0] == a[1] || a[1] == a[2] || a[2] == a[3] || a[0] == a[2] || a[0] == a[3] || a[1] == a[3]);
	same(c, { x.getX(), x.getY(), x.getZ(), x.getW() }, a, "get"); same(c, { x[0], x[1], x[2], x[3] }, a, "operator[]");
	same(c, { x.floats.x, x.floats.y, x.floats.z, x.floats.w }, a, "floats"); c.eqf((float)x, a[0], "(float)v");
	for (int k = 0; k < 4; k++)
	{
		auto y = x; F4 e = a; e[k] = w;
		if (k == 0) y.setX(w); else if (k == 1) y.setY(w); else if (k == 2) y.setZ(w); else y.setW(w);
		same(c, arr(y), e, "set"); auto z = x; z[k] = w; same(c, arr(z), e, "operator[]=");
	}
	same(c, arr(f32x4(x, w)), { a[0], a[1], a[2], w }, "f32x4(xyz,w)"); same(c, arr(f32x4(w)), { w, w, w, w }, "f32x4(n)");
	same(c, arr(f32x4()), { 0, 0, 0, 0 }, "f32x4()");
	auto v3 = f32x4(a[0], a[1], a[2]); c.check(v3.getX() == a[0] && v3.getY() == a[1] && v3.getZ() == a[2], "f32x4(x,y,z)");
	auto u3 = f32x4(float3(a[0], a[1], a[2])); c.check(u3.getX() == a[0] && u3.getY() == a[1] && u3.getZ() == a[2], "f32x4(float3)");
	auto u2 = f32x4(float2(a[0], a[1])); c.check(u2.getX() == a[0] && u2.getY() == a[1], "f32x4(float2)");
	same(c, arr(f32x4(float4(a[0], a[1], a[2], a[3]))), a, "f32x4(float4)");
	auto g = x; g.fixW(); same(c, arr(g), { a[0], a[1], a[2], a[2] }, "fixW");
	auto f4 = (float4)x; same(c, { f4.x, f4.y, f4.z, f4.w }, a, "(float4)"); auto f3 = (float3)x; c.check(f3.x == a[0] && f3.y == a[1] && f3.z == a[2], "(float3)");
	auto f2 = (float2)x; c.check(f2.x == a[0] && f2.y == a[1], "(float2)");
	c.check(toString(x) == std::to_string(a[0]) + " " + std::to_string(a[1]) + " " + std::to_string(a[2]) + " " + std::to_string(a[3]), "toString: '%s'", toString(x).c_str());
	// Memory, at any alignment, without touching the neighbours.
	alignas(16) float buf[12]; for (int i = 0; i < 12; i++) buf[i] = 1000.0f + i; int o = (int)s.draw(4); x.store(buf + o);
	for (int i = 0; i < 12; i++) c.check(i >= o && i < o + 4 ? Case::same(buf[i], a[i - o]) : buf[i] == 1000.0f + i, "store at offset %d, element %d is %.9g", o, i, buf[i]);
	alignas(16) float al[4]; x.storeAligned(al); same(c, { al[0], al[1], al[2], al[3] }, a, "storeAligned");
	f32x4 y; y.loadAligned(al); same(c, arr(y), a, "loadAligned");
	#ifndef PBT_SCALAR_SKIP
	same(c, arr(f32x4((const float*)(buf + o))), a, "f32x4(const float*)");
	#endif
	same(c, arr(x.splatX()), { a[0], a[0], a[0], a[0] }, "splatX"); same(c, arr(x.splatY()), { a[1], a[1], a[1], a[1] }, "splatY");
	same(c, arr(x.splatZ()), { a[2], a[2], a[2], a[2] }, "splatZ"); same(c, arr(x.splatW()), { a[3], a[3], a[3], a[3] }, "splatW");
}
template<uint32 X, uint32 Y, uint32 Z, uint32 W> static void sw(Case& c, f32x4 x, F4 a)
{
	F4 r = arr(x.template swizzle<X, Y, Z, W>());
	c.check(Case::same(r[0], a[X]) && Case::same(r[1], a[Y]) && Case::same(r[2], a[Z]) && Case::same(r[3], a[W]), "swizzle<%u,%u,%u,%u>: got (%g,%g,%g,%g)", X, Y, Z, W, r[0], r[1], r[2], r[3]);
}
template<uint32 I> static void swAll(Case& c, f32x4 x, F4 a) { sw<I & 3, (I >> 2) & 3, (I >> 4) & 3, (I >> 6) & 3>(c, x, a); if constexpr (I < 255) swAll<I + 1>(c, x, a); }
LAW(swizzles, 0.2, "the four lanes are distinct")
{
	F4 a = any4(s, "a"); c.trivialIf(a[0] == a[1] || a[1] == a[2] || a[2] == a[3] || a[0] == a[2] || a[0] == a[3] || a[1] == a[3]);
	swAll<0>(c, simd(a), a);
	F4 r = arr(simd(a).swizzle<SwZ, SwX, SwY>()); c.check(r[0] == a[2] && r[1] == a[0] && r[2] == a[1], "swizzle<Z,X,Y>");
}
LAW(conversions, 2, "some lane is outside [-2^24, 2^24]")
{
	I4 i = int4v(s, "i"); U4 u = uint4v(s, "u"); bool big = false;
	F4 fi = arr(f32x4(simd(i))), fu = arr(f32x4(simd(u)));
	for (int k = 0; k < 4; k++)
	{
		big |= i[k] > (1 << 24) || i[k] < -(1 << 24) || u[k] > (1u << 24);
		c.check(fi[k] == (float)i[k], "f32x4(i32x4) %s: %d became %.9g", L[k], i[k], fi[k]);
		c.check(fu[k] == (float)u[k], "f32x4(u32x4) %s: %u became %.9g", L[k], u[k], fu[k]);
	}
	c.trivialIf(!big);
	F4 a; for (auto& v : a) { v = (float)((double)s.anyI32() + 0.25 * (double)s.irange(-3, 3)); if (s.draw(2) == 0) v *= 0.001f; if (!(v >= -2147483648.0f && v < 2147483648.0f)) v = 7.75f; }
	saw(s, "a", a); I4 gi = arr((i32x4)simd(a)); for (int k = 0; k < 4; k++) c.check(gi[k] == (int32_t)a[k], "(i32x4)f32x4 %s: %.9g became %d", L[k], a[k], gi[k]);
	for (auto& v : a) { v = (float)((double)s.anyU32() + 0.25 * (double)s.draw(3)); if (s.draw(2) == 0) v *= 0.001f; if (!(v >= 0 && v < 4294967296.0f)) v = 7.75f; }
	saw(s, "b", a); U4 gu = arr((u32x4)simd(a)); for (int k = 0; k < 4; k++) c.check(gu[k] == (uint32_t)a[k], "(u32x4)f32x4 %s: %.9g became %u", L[k], a[k], gu[k]);
}
LAW(reinterpretation, 1, "the lanes are distinct bit patterns")
{
	U4 u = uint4v(s, "bits"); c.trivialIf(u[0] == u[1] || u[1] == u[2] || u[2] == u[3]);
	f32x4 x = uintAsFloat(simd(u)), y = intAsFloat(i32x4((int32)u[0], (int32)u[1], (int32)u[2], (int32)u[3]));
	U4 a, b; memcpy(&a, &x, 16); memcpy(&b, &y, 16); c.check(a == u, "uintAsFloat changed bits"); c.check(b == u, "intAsFloat changed bits");
	c.check(arr(floatAsUint(x)) == u, "floatAsUint changed bits"); I4 i = arr(floatAsInt(x)); c.check(memcmp(&i, &u, 16) == 0, "floatAsInt changed bits");
	U4 v = uint4v(s, "bits2"); U4 w = uint4v(s, "bits3"); if (s.draw(1)) { F4 p = any4(s, "value"); memcpy(&u, &p, 16); x = simd(p); } for (int i = 0; i < 4; i++) { int t = (int)s.draw(5); if (t < 2) v[i] = u[i]; else if (t == 2) { float p = s.pick({ 0.0f, 1.0f, -1.0f, 2.0f, -0.0f }); memcpy(&v[i], &p, 4); } if (s.chance(1, 3)) w[i] = v[i]; } if (s.chance(1, 6)) v = u; f32x4 z = uintAsFloat(simd(v));
	bool l = isBinaryLess(x, z), g = isBinaryLess(z, x); c.check(!(l && g), "isBinaryLess is not asymmetric"); c.check((l || g) == (u != v), "isBinaryLess is not total on distinct bit patterns");
	c.check(!isBinaryLess(x, x), "isBinaryLess is not irreflexive"); f32x4 q = uintAsFloat(simd(w)); if (l && isBinaryLess(z, q)) c.check(isBinaryLess(x, q), "isBinaryLess is not transitive");
	if (isBinaryLess(x, q) && isBinaryLess(q, z)) c.check(l, "isBinaryLess is not transitive");
}
LAW(constants, 0.001, "always")
{
	auto all = [&](f32x4 v, float n, const char* w) { same(c, arr(v), { n, n, n, n }, w); };
	all(f32x4::zero, 0, "zero"); all(f32x4::one, 1, "one"); all(f32x4::minusOne, -1, "minusOne"); all(f32x4::min, FLT_MIN, "min"); all(f32x4::minusMin, -FLT_MIN, "minusMin");
	all(f32x4::max, FLT_MAX, "max"); all(f32x4::minusMax, -FLT_MAX, "minusMax"); all(f32x4::epsilon, FLT_EPSILON, "epsilon"); all(f32x4::inf, INFINITY, "inf");
	all(f32x4::minusInf, -INFINITY, "minusInf"); all(f32x4::nan, NAN, "nan");
	same(c, arr(f32x4::left), { -1, 0, 0, 0 }, "left"); same(c, arr(f32x4::right), { 1, 0, 0, 0 }, "right"); same(c, arr(f32x4::bottom), { 0, -1, 0, 0 }, "bottom");
	same(c, arr(f32x4::top), { 0, 1, 0, 0 }, "top"); same(c, arr(f32x4::back), { 0, 0, -1, 0 }, "back"); same(c, arr(f32x4::front), { 0, 0, 1, 0 }, "front");
}
LAW(interpolation, 1, "t strictly between 0 and 1")
{
	F4 a = real4(s, "a", -1000, 1000), b = real4(s, "b", -1000, 1000); float t = s.chance(1, 5) ? s.pick({ 0.0f, 1.0f }) : s.chance(1, 6) ? (float)(s.uni(-1, 1) * s.pick({ 2.0, 8.0, 300.0 })) : (float)s.u01(); s.say("t", t);
	c.trivialIf(t <= 0 || t >= 1); F4 r = arr(lerp(simd(a), simd(b), t)); float f = s.chance(1, 5) ? s.pick({ 1.0f, 0.5f, 0.25f }) : (float)s.uni(0.001, 0.999), dt = s.chance(1, 4) ? (float)s.draw(3) : (float)s.uni(0, 4);
	F4 q = arr(lerpDelta(simd(a), simd(b), f, dt)); double k = 1 - std::pow((double)f, (double)dt); s.say("f", f); s.say("dt", dt);
	for (int i = 0; i < 4; i++)
	{
		double m = std::fabs((double)a[i]) + std::fabs((double)b[i]);
		c.near(r[i], a[i] + (double)t * ((double)b[i] - a[i]), m * (1 + std::fabs(t)) * 6 * EPS, "lerp"); c.near(q[i], a[i] + k * ((double)b[i] - a[i]), m * 24 * EPS, "lerpDelta");
	}
	F4 v = real4(s, "v", -1e6, 1e6); F4 rp = arr(repeat(simd(v)));
	for (int i = 0; i < 4; i++)
	{
		c.check(rp[i] >= 0 && rp[i] <= 1, "repeat(%.9g) = %.9g is outside 0..1", v[i], rp[i]);
		double d = (double)v[i] - rp[i]; c.check(std::fabs(d - std::nearbyint(d)) <= 1e-6, "repeat(%.9g) = %.9g is not congruent modulo 1", v[i], rp[i]);
	}
	F4 n = real4(s, "n", 0, 1e5), d = real4(s, "d", 0.01, 1000); float sg = s.draw(1) ? -1.0f : 1.0f; F4 nn = n, dd = d; for (int i = 0; i < 4; i++) { if (s.chance(1, 10)) nn[i] *= (float)std::exp2(s.uni(-30, 40)); nn[i] *= sg; dd[i] *= sg; } saw(s, "n", nn);
	F4 md = arr(mod(simd(nn), simd(dd)));
	for (int i = 0; i < 4; i++)
	{
		double w = std::fmod((double)nn[i], (double)dd[i]), tol = std::fabs((double)nn[i]) * 8 * EPS + std::fabs((double)dd[i]) * 4 * EPS, e = std::fabs(md[i] - w);
		c.check(e <= tol || std::fabs(e - std::fabs((double)dd[i])) <= tol, "mod(%.9g,%.9g) = %.9g, expected %.9g", nn[i], dd[i], md[i], w);
	}
	F4 d2 = dd; for (int i = 0; i < 4; i++) if (s.draw(1)) d2[i] *= 1.25f; saw(s, "d2", d2); md = arr(mod(simd(nn), simd(d2))); // the same dividend, another divisor
	for (int i = 0; i < 4; i++)
	{
		double w = std::fmod((double)nn[i], (double)d2[i]), tol = std::fabs((double)nn[i]) * 8 * EPS + std::fabs((double)d2[i]) * 4 * EPS, e = std::fabs(md[i] - w);
		c.check(e <= tol || std::fabs(e - std::fabs((double)d2[i])) <= tol, "mod(%.9g,%.9g) = %.9g, expected %.9g", nn[i], d2[i], md[i], w);
	}
}
PBT_MAIN()
