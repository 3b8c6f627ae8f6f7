// V06: dot, cross, length, distance and normalize agree with their definitions evaluated in double.
#include "vecops.hpp"
using namespace pbt; using namespace math;
// Finite components of one magnitude scale or of very different ones; squares neither overflow nor vanish.
static F4 comps(Src& s, const char* n)
{
	F4 a; double e = s.draw(2) ? s.uni(-12, 12) : s.chance(1, 6) ? s.uni(-36, 36) : 0;
	for (auto& v : a) { double m; switch (s.draw(5)) { case 0: m = (double)s.irange(-8, 8); break; case 1: m = 0; break; case 2: m = s.uni(-1, 1) * std::exp2(s.uni(-10, 10)); break; default: m = s.uni(-10, 10); } v = (float)(m * std::exp2(e)); if (std::fabs(v) < 1e-12f) v = 0; }
	saw(s, n, a); return a;
}
struct Ref { double dot = 0, mag = 0, lsq = 0, dsq = 0, dmag = 0, diff[4] = {}; };
static Ref ref(const F4& a, const F4& b, int n)
{
	Ref r; for (int i = 0; i < n; i++) { double p = (double)a[i] * b[i]; r.dot += p; r.mag += std::fabs(p); r.lsq += (double)a[i] * a[i]; double d = (double)a[i] - b[i]; r.dsq += d * d; r.diff[i] = d; }
	return r;
}
template<class D, class LS, class L, class DS, class DI> static void scalarLaws(Case& c, const Ref& r, int n, D dot, LS lsq, L len, DS dsq, DI dist, const char* t)
{
	auto nm = [&](const char* f) { return std::string(f) + " of " + t; };
	c.near(dot, r.dot, r.mag * 6e-7, nm("dot").c_str()); c.near(lsq, r.lsq, r.lsq * 6e-7, nm("lengthSq").c_str()); c.near(len, std::sqrt(r.lsq), std::sqrt(r.lsq) * 6e-7, nm("length").c_str());
	c.near(dsq, r.dsq, r.dsq * 1e-6, nm("distanceSq").c_str()); c.near(dist, std::sqrt(r.dsq), std::sqrt(r.dsq) * 1e-6, nm("distance").c_str());
}
LAW(products, 4, "at least two non-zero terms")
{
	F4 a = comps(s, "a"), b = comps(s, "b"); if (s.chance(1, 8)) { b = a; saw(s, "b=a", b); } else if (s.chance(1, 8)) { for (int i = 0; i < 4; i++) b[i] = std::nextafterf(a[i], 0.0f); }
	F4 a3 = a, b3 = b; a3[3] = junk(s); b3[3] = junk(s); Ref r4 = ref(a, b, 4), r3 = ref(a, b, 3), r2 = ref(a, b, 2); int nz = 0; for (int i = 0; i < 3; i++) nz += a[i] * b[i] != 0; c.trivialIf(nz < 2);
	auto x4 = simd(a), y4 = simd(b), x3 = simd(a3), y3 = simd(b3); float4 p4 = vec(a), q4 = vec(b); float3 p3(a[0], a[1], a[2]), q3(b[0], b[1], b[2]); float2 p2(a[0], a[1]), q2(b[0], b[1]);
	scalarLaws(c, r4, 4, dot4(x4, y4), lengthSq4(x4), length4(x4), distanceSq4(x4, y4), distance4(x4, y4), "four lanes");
	scalarLaws(c, r3, 3, dot3(x3, y3), lengthSq3(x3), length3(x3), distanceSq3(x3, y3), distance3(x3, y3), "three lanes");
	scalarLaws(c, r4, 4, dot(p4, q4), lengthSq(p4), length(p4), distanceSq(p4, q4), distance(p4, q4), "float4");
	scalarLaws(c, r3, 3, dot(p3, q3), lengthSq(p3), length(p3), distanceSq(p3, q3), distance(p3, q3), "float3");
	scalarLaws(c, r2, 2, dot(p2, q2), lengthSq(p2), length(p2), distanceSq(p2, q2), distance(p2, q2), "float2");
	F4 d4 = arr(dotV4(x4, y4)), d3v = arr(dotV3(x3, y3)); for (int i = 0; i < 4; i++) { c.near(d4[i], r4.dot, r4.mag * 6e-7, "dotV4 lane"); if (i < 3) c.near(d3v[i], r3.dot, r3.mag * 6e-7, "dotV3 lane"); }
	// isClose: the threshold is on the squared distance
	float lim = (float)(r3.dsq * (s.draw(1) ? 1.001 : 0.999)); if (r3.dsq > 1e-30 && r3.dsq < 1e30) c.check(isClose(p3, q3, lim) == (r3.dsq <= lim), "isClose(float3)");
	lim = (float)(r4.dsq * (s.draw(1) ? 1.001 : 0.999)); if (r4.dsq > 1e-30 && r4.dsq < 1e30) c.check(isClose(p4, q4, lim) == (r4.dsq <= lim), "isClose(float4)");
	lim = (float)(r2.dsq * (s.draw(1) ? 1.001 : 0.999)); if (r2.dsq > 1e-30 && r2.dsq < 1e30) c.check(isClose(p2, q2, lim) == (r2.dsq <= lim), "isClose(float2)");
}
LAW(cross, 3, "the operands are not parallel")
{
	F4 a = comps(s, "a"), b = comps(s, "b"); a[3] = junk(s); b[3] = junk(s); D3 u = { a[0], a[1], a[2] }, v = { b[0], b[1], b[2] }, w = dcross(u, v); c.trivialIf(dlen(w) <= 1e-6 * dlen(u) * dlen(v));
	D3 g = d3(cross3(simd(a), simd(b))), h = d3(math::cross(float3(a[0], a[1], a[2]), float3(b[0], b[1], b[2]))), n = d3(cross3(simd(b), simd(a)));
	for (int i = 0; i < 3; i++)
	{
		int j = (i + 1) % 3, k = (i + 2) % 3; double tol = (std::fabs(u[j] * v[k]) + std::fabs(u[k] * v[j])) * 3e-7;
		c.near(g[i], w[i], tol, "cross3 component"); c.near(h[i], w[i], tol, "cross(float3) component"); c.near(n[i], -w[i], tol, "cross3(b,a) component");
	}
	c.near(ddot(g, u), 0, dlen(u) * dlen(u) * dlen(v) * 1e-6, "cross3 . a"); c.near(ddot(g, v), 0, dlen(u) * dlen(v) * dlen(v) * 1e-6, "cross3 . b");
}
template<class A> static void unit(Case& c, const A& got, const F4& a, int n, const char* what)
{
	double l = 0, gl = 0; for (int i = 0; i < n; i++) { l += (double)a[i] * a[i]; gl += (double)got[i] * got[i]; } l = std::sqrt(l);
	c.near(std::sqrt(gl), 1, 8e-7, what); for (int i = 0; i < n; i++) c.near(got[i], a[i] / l, 6e-7 * std::fabs(a[i] / l) + 1e-12, what);
}
LAW(normalisation, 3, "at least two non-zero components")
{
	F4 a = comps(s, "a"); double sc = std::exp2((double)s.irange(-20, 20)); for (auto& v : a) v = (float)(v * sc); saw(s, "scaled", a); double l2 = (double)a[0] * a[0] + (double)a[1] * a[1], l3 = l2 + (double)a[2] * a[2];
	c.assume(l2 > 1e-24 && l3 < 1e30 && std::fabs(a[3]) < 1e15); c.trivialIf(a[0] == 0 || a[1] == 0); F4 a3 = a; a3[3] = junk(s);
	unit(c, arr(normalize4(simd(a))), a, 4, "normalize4"); unit(c, arr(normalize3(simd(a3))), a, 3, "normalize3");
	float4 n4 = normalize(vec(a)); unit(c, VT<float4>::get(n4), a, 4, "normalize(float4)"); float3 n3 = normalize(float3(a[0], a[1], a[2])); unit(c, VT<float3>::get(n3), a, 3, "normalize(float3)");
	float2 n2 = normalize(float2(a[0], a[1])); unit(c, VT<float2>::get(n2), a, 2, "normalize(float2)");
	F4 m3 = arr(normalize3(simd(a3))); m3[3] = a3[3]; c.check(isNormalized3(simd(m3)) && isNormalized4(normalize4(simd(a))) && isNormalized(n4) && isNormalized(n3) && isNormalized(n2), "a normalised vector is not isNormalized");
}
LAW(is_normalised, 2, "the vector is not exactly unit")
{
	F4 a = comps(s, "a"); double l4 = 0; for (auto v : a) l4 += (double)v * v; c.assume(l4 > 1e-20 && l4 < 1e20); double want = s.pick({ 1.0, 1.0005, 0.9995, 1.0015, 0.9985, 2.0, 0.5, 0.0 }); float tol = s.pick({ 1e-3f, 1e-2f });
	s.say("lengthSq", want); s.say("tolerance", tol); c.trivialIf(want == 1.0);
	for (int n = 2; n <= 4; n++)
	{
		F4 b = a; double l = 0; for (int i = 0; i < n; i++) l += (double)b[i] * b[i]; if (l < 1e-6 * l4) continue; for (auto& v : b) v = (float)(v * std::sqrt(want / l));
		double q = 0; for (int i = 0; i < n; i++) q += (double)b[i] * b[i]; double m = std::fabs(std::fabs(q - 1) - tol); if (m < 2e-6) continue; bool in = std::fabs(q - 1) <= tol;
		if (n == 2) c.check(isNormalized(float2(b[0], b[1]), tol) == in, "isNormalized(float2), squared length %.9g", q);
		else if (n == 3) { c.check(isNormalized(float3(b[0], b[1], b[2]), tol) == in, "isNormalized(float3), squared length %.9g", q); b[3] = junk(s); c.check(isNormalized3(simd(b), tol) == in, "isNormalized3, squared length %.9g", q); }
		else { c.check(isNormalized(vec(b), tol) == in, "isNormalized(float4), squared length %.9g", q); c.check(isNormalized4(simd(b), tol) == in, "isNormalized4, squared length %.9g", q); }
	}
}
PBT_MAIN()
