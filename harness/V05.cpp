// V05: transcendental functions, SIMD and per-component scalar, against the C library in double precision.
#include "math.hpp"
using namespace pbt; using namespace math;
static const char* L[4] = { "lane x", "lane y", "lane z", "lane w" };
// positive float over its whole range, with values near 1, subnormal, and powers of two
static float positive(Src& s)
{
	switch (s.draw(5))
	{
	case 0: return (float)(1.0 + s.uni(-0.3, 0.5));
	case 1: return std::ldexp(1.0f, (int)s.irange(-140, 127));
	case 2: { uint32_t b = (uint32_t)s.range(1, 0x7f7fffff); float f; memcpy(&f, &b, 4); return f; }
	case 3: return (float)std::exp2(s.uni(-20, 20));
	case 4: { float f = std::ldexp(1.0f, (int)s.irange(-120, 120)); return std::nextafterf(f, s.draw(1) ? 0.0f : INFINITY); }
	default: return (float)s.range(1, 1000);
	}
}
// The result of a lane is that of a vector of four such lanes.
static void alone(Case& c, float got, float want, int lane, const char* what) { c.check((got != got && want != want) || got == want || std::fabs((double)got - want) <= std::fabs((double)want) * 1e-5 + 1e-44, "%s of lane %s alone is %.9g, among the others %.9g", what, L[lane], got, want); }
LAW(logarithm, 4, "at least two distinct lanes")
{
	F4 a; for (auto& v : a) v = positive(s); int special = (int)s.draw(15);
	if (special < 5) a[s.draw(3)] = s.pick({ 0.0f, INFINITY, -1.0f, -INFINITY, NAN, -0.0f, -1e-40f, 1e-45f, FLT_MAX, 1.0f, -5.0f });
	saw(s, "v", a); c.trivialIf(a[0] == a[1] && a[1] == a[2] && a[2] == a[3]); F4 r = arr(log(simd(a))); { int k = (int)s.draw(3); alone(c, arr(log(f32x4(a[k])))[0], r[k], k, "log"); }
	for (int i = 0; i < 4; i++)
	{
		if (a[i] != a[i] || a[i] < 0) { c.cls("log of NaN or negative"); c.check(r[i] != r[i], "log(%.9g) %s is %.9g, not NaN", a[i], L[i], r[i]); continue; }
		double w = std::log((double)a[i]); if (a[i] < FLT_MIN && a[i] > 0) c.cls("log of subnormal"); if (std::isinf(w)) c.cls("log of 0 or inf");
		c.near(r[i], w, std::fabs(w) * 5e-7, "log");
	}
}
LAW(exponential, 4, "at least two distinct lanes")
{
	F4 a; for (auto& v : a) switch (s.draw(4))
	{
	case 0: v = (float)s.uni(-1, 1); break; case 1: v = (float)s.uni(-87, 88.7); break; case 2: v = (float)s.uni(-110, 110); break;
	case 3: v = (float)(0.34657359028 * (double)s.irange(-250, 250)); break; default: v = s.anyFloat();
	}
	if (s.draw(15) == 0) a[s.draw(3)] = NAN;
	saw(s, "v", a); c.trivialIf(a[0] == a[1] && a[1] == a[2] && a[2] == a[3]); F4 r = arr(exp(simd(a))); { int k = (int)s.draw(3); alone(c, arr(exp(f32x4(a[k])))[0], r[k], k, "exp"); }
	for (int i = 0; i < 4; i++)
	{
		if (a[i] != a[i]) { c.cls("exp of NaN"); c.check(r[i] != r[i], "exp(NaN) %s is %.9g", L[i], r[i]); continue; }
		double w = std::exp((double)a[i]);
		if (w > 3.4028235e38) { c.cls("overflow"); c.check(r[i] == INFINITY || (w < 3.4029e38 && r[i] == FLT_MAX), "exp(%.9g) %s is %.9g, expected infinity", a[i], L[i], r[i]); continue; }
		if (w < FLT_MIN) c.cls("underflow"); c.near(r[i], w, w * 4e-7 + (w < FLT_MIN * 2 ? 2.9e-45 : 0), "exp");
	}
}
LAW(power, 3, "base not 0 or 1 and exponent not 0 or 1 in some lane")
{
	F4 b, e; bool triv = true;
	for (int i = 0; i < 4; i++)
	{
		switch (s.draw(4)) { case 0: b[i] = (float)s.uni(0, 1); break; case 1: b[i] = (float)s.uni(0, 20); break; case 2: b[i] = (float)s.irange(-6, 6); break; case 3: b[i] = (float)std::exp2(s.uni(-30, 30)); break; default: b[i] = (float)-s.uni(0, 5); }
		switch (s.draw(3)) { case 0: e[i] = (float)s.irange(-5, 7); break; case 1: e[i] = (float)s.uni(0, 4); break; case 2: e[i] = s.pick({ 1 / 2.2f, 2.2f, 1 / 2.4f, 2.4f, 0.5f, 1.0f, 0.0f }); break; default: e[i] = (float)s.uni(-6, 6); }
		if (s.chance(1, 12)) { b[i] = s.pick({ -1.0f, 1.0f, -1.0000001f, 1.0000001f, -0.99999994f, 0.99999994f }); e[i] = s.draw(1) ? (float)s.irange(-70000, 70000) : (float)(s.pick({ 8388609, 8388608, 16777215, 16777214, 16777216, 16777218, 12345677, 33554432 }) * (s.draw(1) ? 1 : -1)); c.cls("huge exponent of a base near 1"); }
		triv &= b[i] == 0 || b[i] == 1 || e[i] == 0 || e[i] == 1;
	}
	if (s.chance(1, 6)) { int k = (int)s.draw(3); for (auto& v : e) v = e[k]; }
	saw(s, "base", b); saw(s, "exponent", e); c.trivialIf(triv); F4 p = arr(pow(simd(b), simd(e))), q = arr(fastPow(simd(b), simd(e)));
	{ int k = (int)s.draw(3); alone(c, arr(fastPow(f32x4(b[k]), f32x4(e[k])))[0], q[k], k, "fastPow"); alone(c, arr(pow(f32x4(b[k]), f32x4(e[k])))[0], p[k], k, "pow"); }
	for (int i = 0; i < 4; i++)
	{
		double w = std::pow((double)b[i], (double)e[i]);
		if (std::fabs(w) > 3e38 || (std::fabs(w) < 2e-38 && w != 0)) continue;
		c.near(p[i], w, std::fabs(w) * 2.5e-7, "pow");
		if (w != w) { c.cls("negative base, fractional exponent"); continue; } // fastPow: not promised, except that the lanes do not mix
		if (b[i] == 0 && e[i] < 0) continue;
		if (b[i] < 0) c.cls("negative base, integer exponent");
		double lg = std::fabs(b[i] == 0 ? 0.0 : std::log(std::fabs((double)b[i])) * e[i]);
		c.near(q[i], w, std::fabs(w) * (1e-6 + 1e-6 * lg), "fastPow");
	}
}
LAW(sine_cosine, 4, "some lane is not a multiple of pi")
{
	F4 a; for (auto& v : a) switch (s.draw(4))
	{
	case 0: v = (float)(0.78539816339744831 * (double)s.irange(-64, 64)); break; case 1: v = (float)s.uni(-3.15, 3.15); break; case 2: v = (float)s.uni(-100, 100); break;
	case 3: v = (float)s.uni(-1e-3, 1e-3); break; default: v = (float)s.uni(-8000, 8000);
	}
	saw(s, "v", a); bool triv = true; for (auto v : a) triv &= std::fabs(std::sin((double)v)) < 1e-6; c.trivialIf(triv);
	f32x4 sn, cs; sinCos(simd(a), sn, cs); F4 p = arr(sn), q = arr(cs);
	f32x4 own = simd(a), other; sinCos(own, own, other); c.check(arr(own) == p && arr(other) == q, "sinCos with the sine written over the angle"); own = simd(a); sinCos(own, other, own); c.check(arr(other) == p && arr(own) == q, "sinCos with the cosine written over the angle");
	for (int i = 0; i < 4; i++)
	{
		double tol = 3e-7 + std::fabs((double)a[i]) * 1e-10 ;
		c.near(p[i], std::sin((double)a[i]), tol, "sin"); c.near(q[i], std::cos((double)a[i]), tol, "cos");
		if (std::fabs(a[i]) < 1e-3f) c.near(p[i], std::sin((double)a[i]), std::fabs((double)a[i]) * 3e-7, "sin of a small angle (relative)");
	}
}
// Per-component functions of float2/3/4: component i is the scalar function of component i.
#define EACH1(X) X(exp) X(exp2) X(expm1) X(log) X(log10) X(log2) X(log1p) X(cbrt) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(sqrt)
LAW(componentwise, 1, "the four components are distinct")
{
	F4 a; int dom = (int)s.draw(3); for (auto& v : a) v = dom == 3 ? (s.draw(1) ? (float)(std::exp2(s.uni(-70, 70)) * (s.draw(1) ? 1 : -1)) : s.draw(1) ? (float)std::exp2(s.uni(-20, 30)) : s.anyFloat()) : dom == 0 ? (float)s.uni(-1, 1) : dom == 1 ? (float)s.uni(0.001, 20) : (float)s.uni(-20, 20);
	F4 b; for (auto& v : b) v = (float)s.uni(-8, 8);
	if (s.chance(1, 3)) { for (auto* q : { &a, &b }) for (auto& v : *q) if (s.draw(1)) v = s.pick({ 1.0f, -1.0f, 0.0f, -0.0f, 0.5f, 2.0f, -2.0f, 3.0f, 1e-3f, -1e-5f, 0.005f, 150.0f, -300.0f, 1000.0f }); c.cls("special values"); }
	if (s.chance(1, 4)) { (s.draw(1) ? a : b)[s.draw(3)] = a[s.draw(3)]; int i = (int)s.draw(2), j = i + 1; if (s.draw(1)) a[i] = a[j]; else b[i] = b[j]; }
	saw(s, "a", a); saw(s, "b", b);
	c.trivialIf(a[0] == a[1] || a[1] == a[2] || a[2] == a[3] || a[0] == a[2] || a[0] == a[3] || a[1] == a[3]);
	auto v4 = float4(a[0], a[1], a[2], a[3]); auto v3 = float3(a[0], a[1], a[2]); auto v2 = float2(a[0], a[1]);
	auto u4 = float4(b[0], b[1], b[2], b[3]); auto u3 = float3(b[0], b[1], b[2]); auto u2 = float2(b[0], b[1]);
	auto near1 = [&](const char* f, int n, int i, float got, double w)
	{
		if (w != w) { c.check(got != got, "%s of a float%d, component %d: got %.9g, expected NaN", f, n, i, got); return; }
		if (std::isinf(w)) { c.check(got == w, "%s of a float%d, component %d: got %.9g, expected %.9g", f, n, i, got, w); return; }
		if (std::fabs(w) > 3e38) return;
		c.check(std::fabs(got - w) <= std::fabs(w) * 1e-6 + 1e-12, "%s of a float%d, component %d: got %.9g, expected %.9g", f, n, i, got, w);
	};
	#define X(f) { auto r4 = math::f(v4); auto r3 = math::f(v3); auto r2 = math::f(v2); float g4[4] = { r4.x, r4.y, r4.z, r4.w }, g3[3] = { r3.x, r3.y, r3.z }, g2[2] = { r2.x, r2.y }; \
		for (int i = 0; i < 4; i++) { double w = std::f((double)a[i]); near1(#f, 4, i, g4[i], w); if (i < 3) near1(#f, 3, i, g3[i], w); if (i < 2) near1(#f, 2, i, g2[i], w); } }
	EACH1(X)
	#undef X
	#define Y(f, g, nm) { auto r4 = math::f(v4, u4); auto r3 = math::f(v3, u3); auto r2 = math::f(v2, u2); float g4[4] = { r4.x, r4.y, r4.z, r4.w }, g3[3] = { r3.x, r3.y, r3.z }, g2[2] = { r2.x, r2.y }; \
		for (int i = 0; i < 4; i++) { double q = std::g((double)a[i], (double)b[i]); near1(nm, 4, i, g4[i], q); if (i < 3) near1(nm, 3, i, g3[i], q); if (i < 2) near1(nm, 2, i, g2[i], q); } }
	Y(atan, atan2, "atan(a,b)") Y(pow, pow, "pow")
	{ auto r4 = math::mod(v4, u4); auto r3 = math::mod(v3, u3); auto r2 = math::mod(v2, u2); float g4[4] = { r4.x, r4.y, r4.z, r4.w }, g3[3] = { r3.x, r3.y, r3.z }, g2[2] = { r2.x, r2.y };
		for (int i = 0; i < 4; i++) { if (b[i] == 0) continue; float q = std::fmod(a[i], b[i]); near1("mod", 4, i, g4[i], q); if (i < 3) near1("mod", 3, i, g3[i], q); if (i < 2) near1("mod", 2, i, g2[i], q); } }
}
PBT_MAIN()
