// R01: GGX, Hammersley points, importance sampling and index of refraction against their formulas in double.
#include "xform.hpp"
#include "math/brdf.hpp"
using namespace pbt; using namespace math;
static const double PI = 3.14159265358979323846;
static float roughness(Src& s) { float a; switch (s.draw(3)) { case 0: a = (float)(s.range(1, 20) * 0.05); break; case 1: a = (float)std::exp2(s.uni(-16, 0)); break; default: a = (float)s.uni(0.02, 1); } s.say("a", a); return a; }
static float unit(Src& s, const char* n) { float u; switch (s.draw(4)) { case 0: u = (float)(s.draw(8) * 0.125); break; case 1: u = 1.0f - (float)std::exp2(-s.uni(1, 24)); break; case 2: u = (float)std::exp2(-s.uni(1, 24)); break; default: u = (float)s.u01(); } s.say(n, u); return u; }
static double D(double c, double a) { double f = (a * a - 1) * c * c + 1; return a * a / (PI * f * f); }
LAW(ggx, 3, "roughness below 1 and the half vector off the normal")
{
	float a = roughness(s), h = unit(s, "noh"); double f = ((double)a * a - 1) * h * (double)h + 1; c.trivialIf(a == 1 || h == 1 || h == 0); c.assume(f > 1e-5);
	double w = D(h, a); c.near(brdf::ggx(h, a), w, w * (1e-6 + 8e-7 / f), "ggx"); c.near(brdf::ggx(-h, a), w, w * (1e-6 + 8e-7 / f), "ggx of the mirrored half vector");
}
LAW(ggxNormalized, 0.05, "roughness below 1")
{
	// The projected area of the microfacets is the area of the surface: the integral of D cos over the hemisphere is 1.
	float a = (float)s.uni(0.05, 1); s.say("a", a); c.trivialIf(a == 1); int n = 4000; double sum = 0;
	for (int i = 0; i < n; i++) { double x = (i + 0.5) / n, t = std::atan(0.0) + x * PI / 2, ct = std::cos(t); sum += brdf::ggx((float)ct, a) * ct * std::sin(t); }
	c.near(sum * 2 * PI * (PI / 2) / n, 1, 2e-3, "integral of ggx times the cosine over the hemisphere");
}
LAW(hammersley, 3, "the index has several bits set")
{
	uint32_t i = s.anyU32(), n = (uint32_t)s.pick({ 1ull, 2ull, 3ull, 16ull, 1000ull, 1024ull, 4096ull, 1ull << 31 }); s.say(fmt("index=%u count=%u", i, n)); c.trivialIf(__builtin_popcount(i) < 2); float inv = 1.0f / (float)n;
	float2 p = brdf::hammersley(i, inv); uint32_t r = 0; for (int b = 0; b < 32; b++) if (i >> b & 1) r |= 1u << (31 - b);
	c.eqf(p.x, (float)i * inv, "x"); c.eqf(p.y, (float)r * 2.3283064365386963e-10f, "y is the bit-reversed index"); c.check(p.y >= 0 && p.y <= 1, "y %.9g outside of the unit interval", p.y);
	uint32_t n2 = (uint32_t)s.pick({ 5ull, 64ull, 4096ull, 7ull, 1ull }); float inv2 = 1.0f / (float)n2; float2 p2 = brdf::hammersley(i, inv2); c.eqf(p2.x, (float)i * inv2, "x for another count"); c.eqf(p2.y, p.y, "y for another count");
}
LAW(hammersleyStrata, 0.02, "at least four points")
{
	// The first 2^k points: one in each row and each column of the 2^k x 2^k grid.
	int k = (int)s.draw(10), n = 1 << k; s.say(fmt("count=%d", n)); c.trivialIf(k < 2); std::vector<char> row(n), col(n);
	for (int i = 0; i < n; i++)
	{
		float2 p = brdf::hammersley(i, 1.0f / n); int x = (int)std::floor((double)p.x * n), y = (int)std::floor((double)p.y * n);
		c.check(x >= 0 && x < n && y >= 0 && y < n, "point %d of %d is (%.9g, %.9g)", i, n, p.x, p.y); c.check(!row[y] && !col[x], "point %d of %d shares a row or column", i, n); row[y] = col[x] = 1;
	}
}
LAW(importanceSample, 4, "roughness below 1 and an inner sample")
{
	float a = roughness(s); float2 u = float2(unit(s, "u.x"), unit(s, "u.y")); if (s.chance(1, 10)) { float w = s.pick({ a, a * a, 1 - a, 1 - a * a }); (s.draw(1) ? u.x : u.y) = w; } if (u.y < 1 && s.chance(1, 16)) a = 0; c.trivialIf(a == 1 || u.y <= 0 || u.y >= 1); f32x4 v = brdf::importanceSamplingNdfDggx(u, a); D3 g = d3(v);
	for (int i = 0; i < 3; i++) c.check(std::isfinite(g[i]), "component %d is %g", i, g[i]);
	c.check(g[2] >= 0, "below the surface: z %.9g", g[2]); c.near(ddot(g, g), 1, 2e-6, "squared length");
	double den = 1 + ((double)a * a - 1) * u.y, c2 = (1 - (double)u.y) / den; double rel = 8e-7; double e = c2 * rel + 2e-7; double cs = std::sqrt(c2), sn = std::sqrt(std::max(0.0, 1 - c2));
	double es = sn > 0 ? std::min(e / sn, std::sqrt(e) * 1.5) : std::sqrt(e) * 1.5; double phi = 2 * PI * u.x;
	c.near(g[2], cs, cs * rel + 1e-7, "z is the sampled cosine"); c.near(g[0], sn * std::cos(phi), es + 2e-6, "x"); c.near(g[1], sn * std::sin(phi), es + 2e-6, "y");
	// The density of the sampled cosine square is the normalized distribution: the derivative of the map times pi D is one.
	if (a > 0.02f) { double d = (double)a * a / (den * den); c.near(brdf::ggx((float)cs, a) * PI * d, 1, 1e-3 + 2e-6 / (a * a), "density times derivative of the map"); c.cls("density compared"); }
}
LAW(ior, 2, "an index other than 1")
{
	float n = s.chance(1, 10) ? s.pick({ 1.0f, 1.5f, 2.0f, 4.0f, 0.5f, 1.33f }) : s.chance(1, 2) ? (float)s.uni(1, 4) : (float)std::exp2(s.draw(3) ? s.uni(-4, 6) : s.uni(-20, 20)); s.say("ior", n); c.trivialIf(n == 1); double r = std::fabs((double)n - 1) / (n + 1.0); c.near(brdf::iorToReflectance(n), r / 0.4, r * 3e-6 + 1e-9, "iorToReflectance");
	// Remapped reflectance: 0.16 reflectance^2 is the Fresnel reflectance at normal incidence, the same from both sides.
	double x = brdf::iorToReflectance(n); c.near(0.16 * x * x, r * r, r * r * 6e-6 + 1e-12, "0.16 reflectance^2"); c.near(brdf::iorToReflectance(1.0f / n), x, x * 2e-5 + 1e-6, "iorToReflectance of the inverse index");
}
PBT_MAIN()
