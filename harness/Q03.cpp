// Q03: slerp and lerp.
#include "xform.hpp"
using namespace pbt; using namespace math;
static double qdot(D4 a, D4 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
static D4 exact(D4 a, D4 b, double t) // slerp of unit quaternions with a . b >= 0
{
	double d = std::min(1.0, qdot(a, b)), th = std::atan2(std::sqrt(std::max(0.0, [&] { double l = 0; for (int i = 0; i < 4; i++) { double k = b[i] - a[i] * d; l += k * k; } return l; }())), d); D4 r;
	double p = th < 1e-9 ? 1 - t : std::sin((1 - t) * th) / std::sin(th), q = th < 1e-9 ? t : std::sin(t * th) / std::sin(th); for (int i = 0; i < 4; i++) r[i] = a[i] * p + b[i] * q; return r;
}
LAW(slerp_law, 6, "the arc is neither empty nor longer than a quarter turn, and t is inside it")
{
	D4 a = anyRot(s, "a"), b; int kind = (int)s.draw(4);
	if (kind == 0) b = anyRot(s, "b"); else { double an = kind == 1 ? s.uni(-2e-3, 2e-3) : kind == 2 ? s.uni(-3.14159, 3.14159) : kind == 3 ? s.pick({ 0.0, 1e-4, 3.5e-4, 6e-4, 9e-4 }) : s.uni(-0.2, 0.2); D3 ax = dir(s, "axis"); s.say("arc", an); b = qmul(a, daxis(ax, an)); if (s.draw(1)) for (auto& v : b) v = -v; b = fl(b); saw(s, "b", b); }
	float t = s.chance(1, 3) ? s.pick({ 0.0f, 1.0f, 0.5f }) : (float)s.u01(); s.say("t", t); D4 u = qunit(a), v = qunit(b); double d = qdot(u, v); c.cls(d > 0.9999995 ? "almost equal" : d > 0 ? "same side" : d < -0.9999995 ? "almost opposite" : "other side"); c.trivialIf(std::fabs(d) > 0.9999995 || t == 0 || t == 1);
	D4 g = dq(slerp(Q(a), Q(b), t)); c.near(std::sqrt(qdot(g, g)), 1, 2e-6, "length of slerp"); D4 nv = v; for (auto& k : nv) k = -k; D4 w1 = exact(u, v, t), w2 = exact(u, nv, t); double e1 = 0, e2 = 0; for (int i = 0; i < 4; i++) { e1 = std::max(e1, std::fabs(g[i] - w1[i])); e2 = std::max(e2, std::fabs(g[i] - w2[i])); }
	double e = std::fabs(d) < 1e-5 ? std::min(e1, e2) : d > 0 ? e1 : e2; c.near(e, 0, 3e-6, "distance from the point at t of the shortest arc"); // at exactly 180 degrees both arcs are shortest
	if (t == 0) quatNear(c, g, u, 2e-6, "slerp at 0"); if (t == 1) quatNear(c, g, v, 2e-6, "slerp at 1");
	if (std::fabs(d) > 1e-5) quatNear(c, dq(slerp(Q(b), Q(a), 1.0f - t)), g, 5e-6, "slerp(b, a, 1 - t)");
}
LAW(constant_speed, 2, "the arc is not tiny")
{
	D4 a = anyRot(s, "a"); D3 ax = dir(s, "axis"); double an = s.uni(-3, 3); s.say("arc", an); D4 b = fl(qmul(a, daxis(ax, an))); c.trivialIf(std::fabs(an) < 0.01); if (s.draw(1)) for (auto& v : b) v = -v; float t = (float)s.u01(), dt = (float)(s.u01() * (1 - t)); s.say("t", t); s.say("dt", dt);
	D4 p = qunit(dq(slerp(Q(a), Q(b), t))), q = qunit(dq(slerp(Q(a), Q(b), t + dt))); D4 inv = { -p[0], -p[1], -p[2], p[3] }, r = qmul(inv, q); double step = 2 * std::atan2(std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), std::fabs(r[3])); c.near(step, std::fabs(an) * ((double)(t + dt) - t), 1e-5, "angle between two points of the arc");
}
LAW(linear, 2, "the ends differ and t is inside")
{
	F4 a = real4(s, "a", -50, 50), b = real4(s, "b", -50, 50); if (s.chance(1, 4)) for (int i = 0; i < 4; i++) { if (s.draw(1)) a[i] = (float)(std::exp2(s.uni(-30, 30)) * (s.draw(1) ? -1 : 1)); if (s.draw(1)) b[i] = (float)(std::exp2(s.uni(-30, 30)) * (s.draw(1) ? -1 : 1)); } saw(s, "a", a); saw(s, "b", b); F4 t = real4(s, "t", 0, 1); float k = t[0]; if (s.chance(1, 4)) k = s.pick({ 0.0f, 1.0f, 0.5f }); c.trivialIf(k == 0 || k == 1); auto at = [](double p, double q, double x) { return p + (q - p) * x; }; auto tol = [](double p, double q) { return (std::fabs(p) + std::fabs(q)) * 4e-7; };
	F4 g = arr(lerp(simd(a), simd(b), k)); float4 v = lerp(vec(a), vec(b), k); float3 w = lerp(float3(a[0], a[1], a[2]), float3(b[0], b[1], b[2]), k); float2 z = lerp(float2(a[0], a[1]), float2(b[0], b[1]), k);
	float va[4] = { v.x, v.y, v.z, v.w }, wa[3] = { w.x, w.y, w.z }, za[2] = { z.x, z.y };
	for (int i = 0; i < 4; i++) { c.near(g[i], at(a[i], b[i], k), tol(a[i], b[i]), "lerp(f32x4, number)"); c.near(va[i], at(a[i], b[i], k), tol(a[i], b[i]), "lerp(float4, number)"); if (i < 3) c.near(wa[i], at(a[i], b[i], k), tol(a[i], b[i]), "lerp(float3)"); if (i < 2) c.near(za[i], at(a[i], b[i], k), tol(a[i], b[i]), "lerp(float2)"); }
	float m = math::lerp(a[0], b[0], k); c.near(m, at(a[0], b[0], k), tol(a[0], b[0]), "lerp(float)");
}
PBT_MAIN()
