// R02: cube map texel directions against the face selection table of the graphics APIs, and solid angles.
#include "xform.hpp"
#include "math/sh.hpp"
using namespace pbt; using namespace math;
static const double PI = 3.14159265358979323846;
// Direction -> face and face coordinates in [0, 1], as Vulkan and OpenGL specify it.
static int select(D3 r, double& u, double& v)
{
	double ax = std::fabs(r[0]), ay = std::fabs(r[1]), az = std::fabs(r[2]), sc, tc, ma; int f;
	if (az >= ax && az >= ay) { f = r[2] >= 0 ? 4 : 5; sc = r[2] >= 0 ? r[0] : -r[0]; tc = -r[1]; ma = az; }
	else if (ay >= ax) { f = r[1] >= 0 ? 2 : 3; sc = r[0]; tc = r[1] >= 0 ? r[2] : -r[2]; ma = ay; }
	else { f = r[0] >= 0 ? 0 : 1; sc = r[0] >= 0 ? -r[2] : r[2]; tc = -r[1]; ma = ax; }
	u = (sc / ma + 1) / 2; v = (tc / ma + 1) / 2; return f;
}
LAW(texel, 4, "the texel is off both diagonals")
{
	uint32_t n = s.chance(1, 3) ? (uint32_t)s.range(1, 64) : s.draw(1) ? (uint32_t)s.pick({ 1, 2, 128, 256, 512, 1024, 4096, 1000, 8192, 16384, 65536 }) : (uint32_t)std::exp2(s.uni(0, 16)); uint32_t x = s.draw(n - 1), y = s.draw(n - 1), f = s.draw(5); s.say(fmt("size=%u texel=(%u,%u) face=%u", n, x, y, f)); c.trivialIf(x == y || x + y == n - 1);
	float inv = 1.0f / n; double u, v; float2 st = ibl::coordsToST(uint2(x, y), inv); c.near(st.x, 1 - 2 * (x + 0.5) / n, 4e-7, "st.x"); c.near(st.y, 1 - 2 * (y + 0.5) / n, 4e-7, "st.y"); c.check(std::fabs(st.x) < 1 && std::fabs(st.y) < 1, "outside of the face");
	float3 d = ibl::coordsToDir(uint3(x, y, f), inv); D3 g = { d.x, d.y, d.z }; c.near(ddot(g, g), 1, 1e-6, "squared length of the direction"); int k = select(g, u, v); c.eqi(k, f, "face the direction selects"); c.near(u * n, x + 0.5, n * 1e-6, "texel x the direction selects"); c.near(v * n, y + 0.5, n * 1e-6, "texel y the direction selects");
}
LAW(stDir, 4, "general clip coordinates")
{
	D3 st = { s.real(-1, 1), s.real(-1, 1), 0 }; uint32_t f = s.draw(5); saw(s, "st", st); s.say(fmt("face=%u", f)); c.trivialIf(st[0] == st[1] || st[0] == -st[1]); float3 d = ibl::stToDir(float2((float)st[0], (float)st[1]), f); D3 g = { d.x, d.y, d.z }; double l = std::sqrt(1 + st[0] * st[0] + st[1] * st[1]);
	static const double N[6][3] = { { 1, 0, 0 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 } }; double along = g[0] * N[f][0] + g[1] * N[f][1] + g[2] * N[f][2]; c.near(along * l, 1, 2e-6, "coordinate along the face axis"); c.near(ddot(g, g), 1, 1e-6, "squared length");
	double m = std::max(std::fabs(st[0]), std::fabs(st[1])); if (m > 0.999999) return; double u, v; c.eqi(select(g, u, v), f, "face"); c.near(u, (1 - st[0]) / 2, 1e-6, "u"); c.near(v, (1 - st[1]) / 2, 1e-6, "v");
}
LAW(neighbours, 1, "two different faces")
{
	// Along a shared edge both faces give the same directions: the point of the edge selects either of them.
	D3 p = { s.uni(-1, 1), 1, 1 }; int a = (int)s.draw(2); D3 q = { p[(3 - a) % 3], p[(4 - a) % 3], p[(5 - a) % 3] }; for (auto& x : q) { x = s.draw(1) ? -x : x; x = (float)x; } saw(s, "point on an edge", q); int found = 0;
	for (uint32_t f = 0; f < 6; f++) { int ax = f / 2; if (q[ax] != ((f & 1) ? -1 : 1)) continue; double ma = 1, sc, tc; switch (f) { case 0: sc = -q[2]; tc = -q[1]; break; case 1: sc = q[2]; tc = -q[1]; break; case 2: sc = q[0]; tc = q[2]; break; case 3: sc = q[0]; tc = -q[2]; break; case 4: sc = q[0]; tc = -q[1]; break; default: sc = -q[0]; tc = -q[1]; } found++;
		float3 d = ibl::stToDir(float2((float)(-sc / ma), (float)(-tc / ma)), f); D3 g = { d.x, d.y, d.z }; double l = std::sqrt(ddot(q, q)); for (int i = 0; i < 3; i++) c.near(g[i], q[i] / l, 1e-6, fmt("face %u direction of the edge point", f).c_str()); }
	c.check(found >= 2, "an edge point lies on %d faces", found);
}
static double quadrant(double x, double y) { return std::atan2(x * y, std::sqrt(x * x + y * y + 1)); }
LAW(solidAngle, 4, "more than one texel")
{
	uint32_t n = s.draw(2) ? (uint32_t)s.range(1, 256) : s.draw(1) ? 1u << s.draw(16) : (uint32_t)std::exp2(s.uni(0, 16)), x = s.draw(n - 1), y = s.draw(n - 1); s.say(fmt("size=%u texel=(%u,%u)", n, x, y)); c.trivialIf(n == 1); float inv = 1.0f / n; float a = sh::calcSolidAngle(ibl::coordsToST(uint2(x, y), inv), inv); double x0 = 2.0 * x / n - 1, x1 = 2.0 * (x + 1) / n - 1, y0 = 2.0 * y / n - 1, y1 = 2.0 * (y + 1) / n - 1; double w = quadrant(x0, y0) - quadrant(x0, y1) - quadrant(x1, y0) + quadrant(x1, y1);
	c.near(a, w, 6e-7, "solid angle"); if (n <= 128) c.check(a > 0, "solid angle %.9g of texel (%u, %u) of size %u", a, x, y, n);
}
LAW(solidAngleSum, 0.05, "more than one texel")
{
	uint32_t n = (uint32_t)s.range(1, 48); s.say(fmt("size=%u", n)); c.trivialIf(n == 1); float inv = 1.0f / n; double sum = 0; D3 mean = { 0, 0, 0 };
	for (uint32_t f = 0; f < 6; f++) for (uint32_t y = 0; y < n; y++) for (uint32_t x = 0; x < n; x++) { float2 st = ibl::coordsToST(uint2(x, y), inv); double a = sh::calcSolidAngle(st, inv); sum += a; float3 d = ibl::coordsToDir(uint3(x, y, f), inv); mean = mean + D3{ d.x, d.y, d.z } * a; }
	c.near(sum, 4 * PI, 1e-6 * n * n + 1e-4, "sum of the solid angles over the cube"); for (int i = 0; i < 3; i++) c.near(mean[i], 0, 1e-6 * n * n + 1e-4, "mean direction");
}
PBT_MAIN()
