// V04: the scalar vector types act component by component.
#include "simdint.hpp"
using namespace pbt; using namespace math;
template<class V> struct Tag { typedef V type; };
template<class F> static void anyType(Src& s, Case& c, F f)
{
	switch (s.draw(8))
	{
	case 0: c.cls("float2"); f(Tag<float2>()); break; case 1: c.cls("float3"); f(Tag<float3>()); break; case 2: c.cls("float4"); f(Tag<float4>()); break;
	case 3: c.cls("int2"); f(Tag<int2>()); break; case 4: c.cls("int3"); f(Tag<int3>()); break; case 5: c.cls("int4"); f(Tag<int4>()); break;
	case 6: c.cls("uint2"); f(Tag<uint2>()); break; case 7: c.cls("uint3"); f(Tag<uint3>()); break; default: c.cls("uint4"); f(Tag<uint4>());
	}
}
template<class F> static void floatType(Src& s, Case& c, F f)
{
	switch (s.draw(2)) { case 0: c.cls("float2"); f(Tag<float2>()); break; case 1: c.cls("float3"); f(Tag<float3>()); break; default: c.cls("float4"); f(Tag<float4>()); }
}
#define V_ typedef typename decltype(tag)::type V; typedef typename VT<V>::T T; constexpr int N = VT<V>::N; (void)N; (void)sizeof(T)

LAW(arithmetic_float, 2, "the components are distinct")
{
	floatType(s, c, [&](auto tag)
	{
		V_; auto a = genV<V>(s, "a"), b = genV<V>(s, "b"); T n; gen(s, n); s.say("n", n); Arr<V> nn; nn.fill(n);
		V x = VT<V>::make(a), y = VT<V>::make(b); c.trivialIf(!distinct(a));
		PBT_BIN(+, ([](T p, T q) { return p + q; })) PBT_BIN(-, ([](T p, T q) { return p - q; })) PBT_BIN(*, ([](T p, T q) { return p * q; }))
		auto q = [&](const V& got, Arr<V> p, Arr<V> d, const char* what) // one or two roundings
		{
			auto g = VT<V>::get(got);
			for (int i = 0; i < N; i++)
			{
				float w = p[i] / d[i]; if (Case::same(g[i], w)) continue;
				c.check(std::fabs((double)g[i] - w) <= std::fabs((double)w) * 2.4e-7 + 3e-45, "%s: component %d is %.9g, expected %.9g", what, i, g[i], w);
			}
		};
		q(x / y, a, b, "v / w"); q(x / n, a, nn, "v / n"); q(n / y, nn, b, "n / v");
		V t = x; V& r = (t /= y); q(t, a, b, "v /= w"); c.check(&r == &t, "/= does not return its operand"); t = x; t /= n; q(t, a, nn, "v /= n"); t = x; t /= t; q(t, a, a, "v /= v"); for (int k = 0; k < N; k++) { Arr<V> ak; ak.fill(a[k]); t = x; t /= t[k]; q(t, a, ak, "v /= v[k]"); }
		auto g = VT<V>::get(-x); for (int i = 0; i < N; i++) c.check(g[i] == -a[i] && std::signbit(g[i]) != std::signbit(a[i]), "-v: component %d is %.9g", i, g[i]);
	});
}
LAW(arithmetic_int, 3, "the components are distinct")
{
	switch (s.draw(5))
	{
	case 0: integerLaw<int2, true>(s, c); break; case 1: integerLaw<int3, true>(s, c); break; case 2: integerLaw<int4, true>(s, c); break;
	case 3: integerLaw<uint2, false>(s, c); break; case 4: integerLaw<uint3, false>(s, c); break; default: integerLaw<uint4, false>(s, c);
	}
}
LAW(comparison, 3, "some component is less and some is not") { anyType(s, c, [&](auto tag) { V_; comparisonLaw<V>(s, c); }); }
LAW(selection, 3, "some component is clamped")
{
	anyType(s, c, [&](auto tag)
	{
		V_; selectLaw<V>(s, c); auto a = genV<V>(s, "p"), b = genV<V>(s, "q"), d = genV<V>(s, "r"); V x = VT<V>::make(a), y = VT<V>::make(b), z = VT<V>::make(d); Arr<V> lo, hi;
		for (int i = 0; i < N; i++) { lo[i] = std::min(std::min(a[i], b[i]), d[i]); hi[i] = std::max(std::max(a[i], b[i]), d[i]); }
		expectV<V>(c, min(x, y, z), lo, "min of three"); expectV<V>(c, max(x, y, z), hi, "max of three");
		// select by the top bit of each control component
		U4 k = uint4v(s, "control"); Arr<V> w; for (int i = 0; i < N; i++) w[i] = k[i] & 0x80000000u ? a[i] : b[i];
		if constexpr (N == 2) expectV<V>(c, select(uint2(k[0], k[1]), x, y), w, "select"); else if constexpr (N == 3) expectV<V>(c, select(uint3(k[0], k[1], k[2]), x, y), w, "select");
		else expectV<V>(c, select(uint4(k[0], k[1], k[2], k[3]), x, y), w, "select");
	});
}
// Mask tests go by all the bits of all the components, and getTrues by the top bit of each; for masks that is the same.
template<class V, int N> static void masksOf(Case& c, V v, const U4& k, const char* name)
{
	uint32_t all = UINT32_MAX, any = 0; int top = 0; for (int i = 0; i < N; i++) all &= k[i], any |= k[i], top |= (int)(k[i] >> 31) << i;
	c.check(areAllTrue(v) == (all == UINT32_MAX), "areAllTrue(%s) is %d", name, (int)areAllTrue(v)); c.check(areAnyFalse(v) == (all != UINT32_MAX), "areAnyFalse(%s) is %d", name, (int)areAnyFalse(v)); c.check(areAllFalse(v) == (any == 0), "areAllFalse(%s) is %d", name, (int)areAllFalse(v)); c.check(areAnyTrue(v) == (any != 0), "areAnyTrue(%s) is %d", name, (int)areAnyTrue(v)); c.eqi(getTrues(v), top, name);
}
LAW(masks, 2, "the components differ")
{
	U4 k = uint4v(s, "mask"); int kind = (int)s.draw(2); for (auto& x : k) if (kind == 0) x = s.draw(1) ? UINT32_MAX : 0; else if (kind == 1 && s.draw(1)) x = s.draw(1) ? UINT32_MAX : 0; if (s.verbose) s.say(fmt("mask %u %u %u %u", k[0], k[1], k[2], k[3])); c.trivialIf(k[0] == k[1] && k[1] == k[2]);
	masksOf<uint2, 2>(c, uint2(k[0], k[1]), k, "uint2"); masksOf<uint3, 3>(c, uint3(k[0], k[1], k[2]), k, "uint3"); masksOf<uint4, 4>(c, uint4(k[0], k[1], k[2], k[3]), k, "uint4");
}
LAW(not_a_number, 1, "a component without NaN stands beside one with NaN")
{
	floatType(s, c, [&](auto tag)
	{
		V_; auto a = genV<V>(s, "a"), b = genV<V>(s, "b"); int m = 0; for (int i = 0; i < N; i++) { if (s.chance(1, 3)) b[i] = a[i]; if (s.draw(1)) { a[i] = NAN; m |= 1 << i; } if (s.chance(1, 4)) b[i] = NAN; } saw(s, "a'", a); saw(s, "b'", b); c.trivialIf(m == 0 || m == (1 << N) - 1); T n = b[s.draw(N - 1)]; Arr<V> nn; nn.fill(n); V x = VT<V>::make(a), y = VT<V>::make(b);
		PBT_CMP(<) PBT_CMP(>) PBT_CMP(<=) PBT_CMP(>=) expectM<V>(c, equal(x, y), zipb<V>(a, b, [](T p, T q) { return p == q; }), "equal"); expectM<V>(c, notEqual(x, y), zipb<V>(a, b, [](T p, T q) { return p != q; }), "notEqual");
		bool all = true; for (int i = 0; i < N; i++) all &= a[i] == b[i]; c.check((x == y) == all && (x != y) == !all, "== and != of two vectors with NaN");
		expectV<V>(c, x + y, zip<V>(a, b, [](T p, T q) { return p + q; }), "v + w"); expectV<V>(c, x * y, zip<V>(a, b, [](T p, T q) { return p * q; }), "v * w");
		auto g = VT<V>::get(floor(x)), h = VT<V>::get(abs(x)); for (int i = 0; i < N; i++) c.check(Case::same(g[i], std::floor(a[i])) && Case::same(h[i], std::fabs(a[i])), "floor or abs: component %d is %g, %g", i, g[i], h[i]);
	});
}
LAW(order, 2, "the two vectors differ")
{
	anyType(s, c, [&](auto tag)
	{
		V_; auto a = genV<V>(s, "a"), b = genV<V>(s, "b"), d = genV<V>(s, "d"); if (s.draw(1)) for (auto q : { &a, &b, &d }) for (auto& v : *q) if (s.draw(1)) v = (T)s.irange(-1, 2);
		for (int i = 0; i < N; i++) { if (s.chance(1, 2)) b[i] = a[i]; if (s.chance(1, 2)) d[i] = b[i]; }
		V x = VT<V>::make(a), y = VT<V>::make(b), z = VT<V>::make(d); bool l = isBinaryLess(x, y), g = isBinaryLess(y, x), eq = memcmp(&x, &y, sizeof(V)) == 0; c.trivialIf(eq);
		c.check(!(l && g), "isBinaryLess is not asymmetric"); c.check((l || g) == !eq, "isBinaryLess is not total"); c.check(!isBinaryLess(x, x), "isBinaryLess is not irreflexive");
		if (l && isBinaryLess(y, z)) c.check(isBinaryLess(x, z), "isBinaryLess is not transitive");
		if (isBinaryLess(x, z) && isBinaryLess(z, y)) c.check(l, "isBinaryLess is not transitive");
	});
}
LAW(access, 2, "the components are distinct")
{
	anyType(s, c, [&](auto tag)
	{
		V_; auto a = genV<V>(s, "a"); T n; gen(s, n); c.trivialIf(!distinct(a)); V x = VT<V>::make(a); const V cx = x; c.equ(sizeof(V), N * sizeof(T), "bytes of a vector"); { V L[2] = { x, x }; T e[2 * N] = {}; memcpy(e, L, std::min(sizeof L, sizeof e)); for (int i = 0; i < N; i++) c.check(!memcmp(&e[i], &a[i], sizeof(T)) && !memcmp(&e[N + i], &a[i], sizeof(T)), "component %d in memory", i); }
		for (int k = 0; k < N; k++) { c.check(cx[k] == a[k] && x[k] == a[k], "operator[](%d)", k); V y = x; y[k] = n; auto e = a; e[k] = n; expectV<V>(c, y, e, "v[k] = n"); }
		Arr<V> nn; nn.fill(n); expectV<V>(c, V(n), nn, "V(n)"); V t = x; V& r = (t = n); expectV<V>(c, t, nn, "v = n"); c.check(&r == &t, "v = n does not return its operand"); nn.fill(0); expectV<V>(c, V(), nn, "V()");
		std::vector<std::string> p; for (auto v : a) p.push_back(std::to_string(v)); c.check(toString(x) == decimal(p), "toString: '%s'", toString(x).c_str());
	});
}
// Constructors mixing smaller vectors and numbers, and conversions to smaller vectors of the same element type.
template<class V2, class V3, class V4> static void shapes(Src& s, Case& c)
{
	auto a = genV<V4>(s, "a"); c.trivialIf(!distinct(a)); typedef typename VT<V4>::T T; T x = a[0], y = a[1], z = a[2], w = a[3]; typedef Arr<V3> A3;
	expectV<V3>(c, V3(V2(x, y), z), A3{ x, y, z }, "V3(xy, z)"); expectV<V3>(c, V3(x, V2(y, z)), A3{ x, y, z }, "V3(x, yz)");
	expectV<V4>(c, V4(V2(x, y), z, w), a, "V4(xy, z, w)"); expectV<V4>(c, V4(x, V2(y, z), w), a, "V4(x, yz, w)"); expectV<V4>(c, V4(x, y, V2(z, w)), a, "V4(x, y, zw)");
	expectV<V4>(c, V4(V2(x, y), V2(z, w)), a, "V4(xy, zw)"); expectV<V4>(c, V4(V3(x, y, z), w), a, "V4(xyz, w)"); expectV<V4>(c, V4(x, V3(y, z, w)), a, "V4(x, yzw)");
	V4 v(x, y, z, w); expectV<V3>(c, (V3)v, A3{ x, y, z }, "V3(V4)"); expectV<V2>(c, (V2)v, { x, y }, "V2(V4)"); expectV<V2>(c, (V2)V3(x, y, z), { x, y }, "V2(V3)");
	V3 v3(x, y, z); V2 v2(x, y); c.check((T)v == x && (T)v3 == x && (T)v2 == x, "conversion to a number");
}
LAW(negation, 0.5, "the components are distinct")
{
	U4 a = uint4v(s, "a"), n; for (int i = 0; i < 4; i++) n[i] = 0u - a[i]; c.trivialIf(!distinct(a)); expectV<uint4>(c, -uint4(a[0], a[1], a[2], a[3]), n, "-uint4"); expectV<uint3>(c, -uint3(a[0], a[1], a[2]), { n[0], n[1], n[2] }, "-uint3"); expectV<uint2>(c, -uint2(a[0], a[1]), { n[0], n[1] }, "-uint2");
}
LAW(constructors, 2, "the components are distinct") { switch (s.draw(2)) { case 0: shapes<float2, float3, float4>(s, c); break; case 1: shapes<int2, int3, int4>(s, c); break; default: shapes<uint2, uint3, uint4>(s, c); } }
LAW(conversions, 2, "the components are distinct")
{
	I4 i = int4v(s, "i"); U4 u = uint4v(s, "u"); c.trivialIf(!distinct(i) || !distinct(u)); F4 fi, fu; for (int k = 0; k < 4; k++) { fi[k] = (float)i[k]; fu[k] = (float)u[k]; }
	int4 i4(i[0], i[1], i[2], i[3]); int3 i3(i[0], i[1], i[2]); int2 i2(i[0], i[1]); uint4 u4(u[0], u[1], u[2], u[3]); uint3 u3(u[0], u[1], u[2]); uint2 u2(u[0], u[1]);
	expectV<float4>(c, float4(i4), fi, "float4(int4)"); expectV<float3>(c, float3(i3), { fi[0], fi[1], fi[2] }, "float3(int3)"); expectV<float2>(c, float2(i2), { fi[0], fi[1] }, "float2(int2)");
	expectV<float4>(c, float4(u4), fu, "float4(uint4)"); expectV<float3>(c, float3(u3), { fu[0], fu[1], fu[2] }, "float3(uint3)"); expectV<float2>(c, float2(u2), { fu[0], fu[1] }, "float2(uint2)");
	I4 iu; U4 ui; for (int k = 0; k < 4; k++) { iu[k] = (int32_t)u[k]; ui[k] = (uint32_t)i[k]; }
	expectV<int4>(c, int4(u4), iu, "int4(uint4)"); expectV<int3>(c, int3(u3), { iu[0], iu[1], iu[2] }, "int3(uint3)"); expectV<int2>(c, int2(u2), { iu[0], iu[1] }, "int2(uint2)");
	expectV<uint4>(c, (uint4)i4, ui, "uint4(int4)"); expectV<uint3>(c, (uint3)i4, { ui[0], ui[1], ui[2] }, "uint3(int4)"); expectV<uint2>(c, (uint2)i4, { ui[0], ui[1] }, "uint2(int4)");
	expectV<uint3>(c, (uint3)i3, { ui[0], ui[1], ui[2] }, "uint3(int3)"); expectV<uint2>(c, (uint2)i3, { ui[0], ui[1] }, "uint2(int3)"); expectV<uint2>(c, (uint2)i2, { ui[0], ui[1] }, "uint2(int2)");
	c.check((uint32)i4 == ui[0] && (uint32)i3 == ui[0] && (uint32)i2 == ui[0], "uint32(intN)");
	F4 f, g; for (auto& v : f) { v = s.anyFloat(false); if (std::fabs(v) >= 2147483648.0f) v = (float)s.uni(-2e9, 2e9); } for (auto& v : g) { v = std::fabs(s.anyFloat(false)); if (v >= 4294967296.0f) v = (float)s.uni(0, 4.2e9); }
	saw(s, "f", f); saw(s, "g", g); float4 f4(f[0], f[1], f[2], f[3]); float3 f3(f[0], f[1], f[2]); float2 f2(f[0], f[1]); float4 g4(g[0], g[1], g[2], g[3]); float3 g3(g[0], g[1], g[2]); float2 g2(g[0], g[1]);
	I4 wi; U4 wu; for (int k = 0; k < 4; k++) { wi[k] = (int32_t)f[k]; wu[k] = (uint32_t)(uint64_t)g[k]; }
	expectV<int4>(c, (int4)f4, wi, "int4(float4)"); expectV<int3>(c, (int3)f4, { wi[0], wi[1], wi[2] }, "int3(float4)"); expectV<int2>(c, (int2)f4, { wi[0], wi[1] }, "int2(float4)");
	expectV<int3>(c, (int3)f3, { wi[0], wi[1], wi[2] }, "int3(float3)"); expectV<int2>(c, (int2)f3, { wi[0], wi[1] }, "int2(float3)"); expectV<int2>(c, (int2)f2, { wi[0], wi[1] }, "int2(float2)");
	expectV<uint4>(c, (uint4)g4, wu, "uint4(float4)"); expectV<uint3>(c, (uint3)g4, { wu[0], wu[1], wu[2] }, "uint3(float4)"); expectV<uint2>(c, (uint2)g4, { wu[0], wu[1] }, "uint2(float4)");
	expectV<uint3>(c, (uint3)g3, { wu[0], wu[1], wu[2] }, "uint3(float3)"); expectV<uint2>(c, (uint2)g3, { wu[0], wu[1] }, "uint2(float3)"); expectV<uint2>(c, (uint2)g2, { wu[0], wu[1] }, "uint2(float2)");
	c.check((int32)f4 == wi[0] && (int32)f3 == wi[0] && (int32)f2 == wi[0], "int32(floatN)"); c.check((uint32)g4 == wu[0] && (uint32)g3 == wu[0] && (uint32)g2 == wu[0], "uint32(floatN)");
}
LAW(rounding, 2, "some component has a fractional part")
{
	floatType(s, c, [&](auto tag)
	{
		V_; auto a = genV<V>(s, "a"), b = genV<V>(s, "b"), d = genV<V>(s, "d"); for (auto& v : a) if (s.chance(1, 2)) v = (float)(s.irange(-400, 400) * 0.25); saw(s, "a'", a);
		V x = VT<V>::make(a); bool fr = false; for (auto v : a) fr |= std::isfinite(v) && v != std::floor(v); c.trivialIf(!fr); auto m = [&](auto f) { Arr<V> r; for (int i = 0; i < N; i++) r[i] = f(a[i]); return r; };
		expectV<V>(c, floor(x), m([](float v) { return std::floor(v); }), "floor"); expectV<V>(c, ceil(x), m([](float v) { return std::ceil(v); }), "ceil"); expectV<V>(c, trunc(x), m([](float v) { return std::trunc(v); }), "trunc");
		auto r = VT<V>::get(round(x)); for (int i = 0; i < N; i++) c.check(Case::same(r[i], std::round(a[i])) || Case::same(r[i], std::nearbyintf(a[i])), "round: component %d is %.9g for %.9g", i, r[i], a[i]);
		auto ab = VT<V>::get(abs(x)); for (int i = 0; i < N; i++) c.check(ab[i] == std::fabs(a[i]) && !std::signbit(ab[i]), "abs: component %d is %.9g for %.9g", i, ab[i], a[i]);
		expectV<V>(c, sign(x), m([](float v) { return std::signbit(v) ? -1.0f : 1.0f; }), "sign"); int sb = 0; for (int i = 0; i < N; i++) sb |= (std::signbit(a[i]) ? 1 : 0) << i; c.eqi(signBits(x), sb, "signBits");
		auto fm = VT<V>::get(fma(x, VT<V>::make(b), VT<V>::make(d)));
		for (int i = 0; i < N; i++)
		{
			double p = (double)a[i] * b[i], w = p + d[i]; if (!(std::fabs(p) < 1e38 && std::fabs(w) < 1e38)) continue;
			c.check(std::fabs(fm[i] - w) <= (std::fabs(p) + std::fabs(w)) * 1.2e-7 + 3e-45, "fma: component %d is %.9g, expected %.9g", i, fm[i], w);
		}
		auto rp = VT<V>::get(repeat(x)); for (int i = 0; i < N; i++) if (std::isfinite(a[i])) c.check(rp[i] == repeat(a[i]), "repeat: component %d is %.9g for %.9g", i, rp[i], a[i]);
	});
}
LAW(interpolation, 2, "the components are distinct")
{
	floatType(s, c, [&](auto tag)
	{
		V_; Arr<V> a, b, x, k; for (auto& v : a) v = s.real(-100, 100); for (auto& v : b) v = s.real(-100, 100); for (auto& v : x) v = s.draw(4) ? (float)s.u01() : s.pick({ 0.0f, 0.5f, 1.0f }); for (auto& v : k) v = (float)s.uni(0.1, 8); if (s.chance(1, 6)) for (int i = 0; i < N; i++) { float w = s.pick({ x[i], x[(i + 1) % N], 1 - x[i], 1.0f, 2.0f }); if (w >= 0.1f) k[i] = w; } if (s.chance(1, 6)) for (int i = 0; i < N; i++) if (s.draw(1)) b[i] = a[i] * (s.draw(1) ? 1 : -1);
		float t = s.draw(4) == 0 ? s.pick({ 0.0f, 0.5f, 1.0f }) : s.chance(1, 6) ? (float)(s.uni(-1, 1) * s.pick({ 2.0, 8.0, 300.0 })) : (float)s.u01(), f = s.chance(1, 5) ? s.pick({ 1.0f, 0.5f, 0.25f }) : (float)s.uni(0.05, 0.95), dt = s.chance(1, 4) ? (float)s.draw(3) : (float)s.uni(0, 3); saw(s, "a", a); saw(s, "b", b); saw(s, "x", x); saw(s, "k", k); s.say("t", t); s.say("f", f); s.say("dt", dt); c.trivialIf(!distinct(a) || !distinct(x));
		V p = VT<V>::make(a), q = VT<V>::make(b); auto l = VT<V>::get(lerp(p, q, t)), ld = VT<V>::get(lerpDelta(p, q, f, dt)), gn = VT<V>::get(gain(VT<V>::make(x), VT<V>::make(k))); double u = 1 - std::pow((double)f, (double)dt);
		for (int i = 0; i < N; i++)
		{
			double mag = (std::fabs(a[i]) + std::fabs(b[i])) * 1e-6 + 1e-12; c.near(l[i], a[i] + ((double)b[i] - a[i]) * t, mag * (1 + std::fabs(t)), "lerp"); c.near(ld[i], a[i] + u * ((double)b[i] - a[i]), mag, "lerpDelta");
			double g = 0.5 * std::pow(2.0 * (x[i] < 0.5f ? (double)x[i] : 1.0 - x[i]), (double)k[i]); c.near(gn[i], x[i] < 0.5f ? g : 1 - g, 1e-6, "gain");
		}
	});
}
#define CONST(V, name, ...) { const V& k = V::name; Arr<V> w __VA_ARGS__; expectV<V>(c, k, w, #V "::" #name); }
#define CONSTF(V, F) { Arr<V> w; auto t = [&](const V& k, float v, const char* n) { w.fill(v); expectV<V>(c, k, w, n); }; t(V::zero, 0, #V "::zero"); t(V::one, 1, #V "::one"); t(V::minusOne, -1, #V "::minusOne"); t(V::min, FLT_MIN, #V "::min"); \
	t(V::minusMin, -FLT_MIN, #V "::minusMin"); t(V::max, FLT_MAX, #V "::max"); t(V::minusMax, -FLT_MAX, #V "::minusMax"); t(V::epsilon, FLT_EPSILON, #V "::epsilon"); t(V::inf, INFINITY, #V "::inf"); t(V::minusInf, -INFINITY, #V "::minusInf"); t(V::nan, NAN, #V "::nan"); }
LAW(constants, 0.001, "always")
{
	CONSTF(float2, ) CONSTF(float3, ) CONSTF(float4, )
	CONST(float2, left, { -1, 0 }) CONST(float2, right, { 1, 0 }) CONST(float2, bottom, { 0, -1 }) CONST(float2, top, { 0, 1 })
	CONST(float3, left, { -1, 0, 0 }) CONST(float3, right, { 1, 0, 0 }) CONST(float3, bottom, { 0, -1, 0 }) CONST(float3, top, { 0, 1, 0 }) CONST(float3, back, { 0, 0, -1 }) CONST(float3, front, { 0, 0, 1 })
	CONST(int2, left, { -1, 0 }) CONST(int2, right, { 1, 0 }) CONST(int2, bottom, { 0, -1 }) CONST(int2, top, { 0, 1 })
	CONST(int3, left, { -1, 0, 0 }) CONST(int3, right, { 1, 0, 0 }) CONST(int3, bottom, { 0, -1, 0 }) CONST(int3, top, { 0, 1, 0 }) CONST(int3, back, { 0, 0, -1 }) CONST(int3, front, { 0, 0, 1 })
	CONST(int2, zero, { 0, 0 }) CONST(int2, one, { 1, 1 }) CONST(int2, minusOne, { -1, -1 })
	CONST(int3, zero, { 0, 0, 0 }) CONST(int3, one, { 1, 1, 1 }) CONST(int3, minusOne, { -1, -1, -1 })
	CONST(int4, zero, { 0, 0, 0, 0 }) CONST(int4, one, { 1, 1, 1, 1 }) CONST(int4, minusOne, { -1, -1, -1, -1 })
	CONST(uint2, zero, { 0, 0 }) CONST(uint2, one, { 1, 1 }) CONST(uint3, zero, { 0, 0, 0 }) CONST(uint3, one, { 1, 1, 1 })
	CONST(uint4, zero, { 0, 0, 0, 0 }) CONST(uint4, one, { 1, 1, 1, 1 })
}
PBT_MAIN()
