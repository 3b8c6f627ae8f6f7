// U06: scalar helpers and angle conversion.
#include "math.hpp"
#include "math/angles.hpp"
using namespace pbt; using namespace math;
LAW(angles, 4, "the angle is not zero")
{
	float a[4]; for (auto& v : a) { v = s.chance(1, 3) ? (float)s.irange(-24, 24) * 15 : s.chance(1, 5) ? s.pick({ 1.0f, -1.0f, 0.5f, 2.0f, -0.0f, 3.1415927f, -3.1415927f, 6.2831855f, 57.29578f, 1.5707964f }) : s.draw(1) ? (float)s.uni(-1000, 1000) : (float)std::exp2(s.uni(-60, 60)); s.say("a", v); } c.trivialIf(a[0] == 0); auto tol = [](double w) { return std::fabs(w) * 4e-7; }; const double PI = 3.14159265358979323846;
	for (int dirn = 0; dirn < 2; dirn++)
	{
		double k = dirn ? 180 / PI : PI / 180; const char* n = dirn ? "degrees" : "radians"; float one = dirn ? degrees(a[0]) : radians(a[0]); c.near(one, a[0] * k, tol(a[0] * k), n); float2 v2(a[0], a[1]); float3 v3(a[0], a[1], a[2]); float4 v4(a[0], a[1], a[2], a[3]); f32x4 vs(a[0], a[1], a[2], a[3]); float2 r2 = dirn ? degrees(v2) : radians(v2); float3 r3 = dirn ? degrees(v3) : radians(v3); float4 r4 = dirn ? degrees(v4) : radians(v4); f32x4 rs = dirn ? degrees(vs) : radians(vs);
		for (int i = 0; i < 4; i++) { double w = a[i] * k; if (i < 2) c.near(r2[i], w, tol(w), n); if (i < 3) c.near(r3[i], w, tol(w), n); c.near(r4[i], w, tol(w), n); c.near(rs[i], w, tol(w), n); }
	}
	c.near(degrees(radians(a[0])), a[0], tol(a[0]), "degrees of radians");
}
LAW(choice, 4, "three different values")
{
	float a = s.anyFloat(), b = s.anyFloat(), k = s.anyFloat(); int32_t x = s.anyI32(), y = s.anyI32(), z = s.anyI32(); if (s.draw(1)) { b = a; if (s.draw(1)) y = x; } if (s.draw(1)) k = b; s.say("a", a); s.say("b", b); s.say("c", k); s.say("x", x); s.say("y", y); s.say("z", z); c.trivialIf(a == b || b == k || x == y || y == z);
	c.eqf(math::min(a, b, k), std::min({ a, b, k }), "min(a, b, c)"); c.eqf(math::max(a, b, k), std::max({ a, b, k }), "max(a, b, c)"); c.eqi(math::min(x, y, z), std::min({ x, y, z }), "min(x, y, z)"); c.eqi(math::max(x, y, z), std::max({ x, y, z }), "max(x, y, z)"); c.eqf(math::sign(a), std::signbit(a) ? -1 : 1, "sign");
}
LAW(blend, 4, "t is inside 0..1 and the ends differ")
{
	float a = s.real(-1000, 1000), b = s.real(-1000, 1000), t = s.chance(1, 6) ? (float)s.draw(1) : s.chance(1, 6) ? (float)(s.uni(-1, 1) * s.pick({ 2.0, 8.0, 300.0 })) : (float)s.u01(), dt = s.chance(1, 4) ? (float)s.draw(3) : (float)s.uni(0, 4), f = s.chance(1, 5) ? s.pick({ 1.0f, 0.5f, 0.25f }) : (float)s.uni(0.001, 1), x = s.chance(1, 4) ? (float)s.draw(4) * 0.25f : (float)s.u01(), k = (float)std::exp2(s.uni(-3, 4)); if (s.chance(1, 8)) { float w = s.pick({ x, 1 - x, 2 * x, 1 / (x + 1e-3f), 0.5f, 1.0f }); if (w >= 0.125f) k = w; } s.say("a", a); s.say("b", b); s.say("t", t); s.say("f", f); s.say("dt", dt); s.say("x", x); s.say("k", k); c.trivialIf(a == b || t == 0 || t == 1); double m = std::fabs(a) + std::fabs(b);
	c.near(math::lerp(a, b, t), a + (double)t * ((double)b - a), m * (1 + std::fabs(t)) * 1e-6, "lerp"); if (t == 0) c.eqf(math::lerp(a, b, t), a, "lerp at 0"); double p = 1 - std::pow((double)f, (double)dt); c.near(lerpDelta(a, b, f, dt), a + p * ((double)b - a), m * 1e-6, "lerpDelta");
	// one step of two dt equals two steps of dt
	float once = lerpDelta(a, b, f, dt), twice = lerpDelta(once, b, f, dt); c.near(lerpDelta(a, b, f, dt * 2), twice, m * 3e-6, "lerpDelta of twice the time");
	double h = x < 0.5 ? 0.5 * std::pow(2.0 * x, (double)k) : 1 - 0.5 * std::pow(2.0 * (1 - (double)x), (double)k); c.near(gain(x, k), h, 1e-6, "gain"); c.near(gain(1 - x, k), 1 - (double)gain(x, k), 1e-6 + 1e-6 * k, "gain(1 - x) = 1 - gain(x)");
	float v = s.chance(1, 3) ? s.anyFloat(false) : s.draw(1) ? s.real(-100, 100) : (float)s.irange(-5, 5); s.say("v", v); float r = math::repeat(v); c.check(r >= 0 && r <= 1, "repeat(%.9g) = %.9g is outside 0..1", v, r); double q = (double)v - r; c.check(std::fabs(q - std::nearbyint(q)) <= 1e-6, "repeat(%.9g) = %.9g is not congruent modulo 1", v, r); if (v >= 0 && v < 1) c.eqf(r, v, "repeat inside 0..1");
}
PBT_MAIN()
