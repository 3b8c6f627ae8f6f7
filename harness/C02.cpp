// C02: XYZ and Yxy conversions against the published matrix, in double.
#include "xform.hpp"
#include "math/color-space.hpp"
using namespace pbt; using namespace math;
static const double M[3][3] = { { 0.4124564, 0.3575761, 0.1804375 }, { 0.2126729, 0.7151522, 0.0721750 }, { 0.0193339, 0.1191920, 0.9503041 } };
static D3 mul(const double m[3][3], D3 v) { D3 r; for (int i = 0; i < 3; i++) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return r; }
static D3 solve(D3 v) { auto det = [](D3 a, D3 b, D3 q) { return ddot(a, dcross(b, q)); }; D3 k[3]; for (int j = 0; j < 3; j++) k[j] = { M[0][j], M[1][j], M[2][j] }; double d = det(k[0], k[1], k[2]); return { det(v, k[1], k[2]) / d, det(k[0], v, k[2]) / d, det(k[0], k[1], v) / d }; }
static D3 colour(Src& s, const char* n) { D3 r; double scale = s.pick({ 1.0, 1.0, 0.01, 64.0, 1e-5, 3e5 }); for (auto& v : r) v = s.chance(1, 4) ? (float)(s.draw(2) * 0.5 * (s.draw(1) ? scale : 1.0)) : (float)(s.u01() * scale); saw(s, n, r); return r; }
static void near3(Case& c, f32x4 g, D3 w, double tol, const char* what) { D3 v = d3(g); for (int i = 0; i < 3; i++) c.near(v[i], w[i], tol, what); }
LAW(xyz, 4, "the three channels differ")
{
	D3 r = colour(s, "rgb"); double m = dmaxabs(r); c.trivialIf(r[0] == r[1] || r[1] == r[2] || r[0] == r[2]); f32x4 f = simd(r, junk(s)); f32x4 x = rgbToXyz(f); near3(c, x, mul(M, r), m * 1e-6, "rgbToXyz"); near3(c, xyzToRgb(x), r, m * 4e-6, "xyzToRgb of rgbToXyz"); near3(c, xyzToRgb(f), solve(r), m * 8e-6, "xyzToRgb"); near3(c, rgbToXyz(xyzToRgb(f)), r, m * 8e-6, "rgbToXyz of xyzToRgb");
	// linearity
	D3 q = colour(s, "q"); float k = (float)s.uni(0, 4); D3 t = fl(r + q * k); double mm = m + 4 * dmaxabs(q); near3(c, rgbToXyz(simd(t)), d3(rgbToXyz(f)) + d3(rgbToXyz(simd(q))) * k, mm * 3e-6, "rgbToXyz of a sum");
	near3(c, rgbToXyz(f32x4(1.0f, 1.0f, 1.0f, junk(s))), { 0.95047, 1, 1.08883 }, 2e-5, "rgbToXyz of white is the D65 white");
}
LAW(yxy, 4, "the three channels differ")
{
	D3 r = colour(s, "rgb"); for (auto& v : r) v = (float)(v + 1e-3); D3 x = mul(M, r); double m = dmaxabs(r), sum = x[0] + x[1] + x[2]; c.trivialIf(r[0] == r[1] || r[1] == r[2] || r[0] == r[2]); c.assume(m < 1e4 * std::min(r[0], std::min(r[1], r[2]))); D3 fx = fl(x); D3 want = { fx[1], fx[0] / (fx[0] + fx[1] + fx[2]), fx[1] / (fx[0] + fx[1] + fx[2]) };
	auto yxy = [&](f32x4 g, double e, const char* what) { D3 v = d3(g); c.near(v[0], want[0], m * e, what); c.near(v[1], want[1], e, what); c.near(v[2], want[2], e, what); }; f32x4 y = xyzToYxy(simd(fx, junk(s))); yxy(y, 2e-6, "xyzToYxy"); yxy(rgbToYxy(simd(r, junk(s))), 4e-6, "rgbToYxy"); double amp = 1 / want[2];
	near3(c, yxyToXyz(simd(d3(y), junk(s))), fx, sum * 4e-6 * amp, "yxyToXyz of xyzToYxy"); near3(c, yxyToRgb(rgbToYxy(simd(r, junk(s)))), r, sum * 2e-5 * amp, "yxyToRgb of rgbToYxy"); c.near(want[0], ddot({ M[1][0], M[1][1], M[1][2] }, r), m * 1e-6, "luminance");
}
// Any chromaticity, of colours no display shows too: outside the triangle x + y <= 1, or negative
LAW(chromaticity, 3, "x + y is above one or x is negative")
{
	double y = s.uni(0.05, 1.2) * (s.chance(1, 6) ? -1 : 1), x = s.chance(1, 2) ? s.uni(-0.5, 1.5) : s.uni(0, 0.9); if (s.chance(1, 8)) x = y = s.pick({ 1 / 3.0, 0.25, 0.5, 1.0, 0.3127 }); else if (s.chance(1, 8)) x = s.draw(1) ? y : 1 - y; double Y = std::exp2(s.draw(3) ? s.uni(-6, 6) : s.uni(-20, 20)) * (s.chance(1, 6) ? -1 : 1); if (s.chance(1, 16)) Y = 0; D3 v = fl(D3{ Y, x, y }); saw(s, "Yxy", v); c.trivialIf(v[1] + v[2] <= 1 && v[1] >= 0);
	D3 want = { v[0] * v[1] / v[2], v[0], v[0] * (1 - v[1] - v[2]) / v[2] }; double m = std::fabs(v[0]) * (1 + (std::fabs(v[1]) + 1) / std::fabs(v[2])); f32x4 g = yxyToXyz(simd(v, junk(s))); near3(c, g, want, m * 1e-6, "yxyToXyz"); near3(c, yxyToRgb(simd(v, junk(s))), solve(want), m * 1e-5, "yxyToRgb");
	D3 f = fl(want); double sum = f[0] + f[1] + f[2], mag = std::fabs(f[0]) + std::fabs(f[1]) + std::fabs(f[2]); if (std::fabs(sum) > 0.02 * mag) { D3 b = d3(xyzToYxy(simd(f, junk(s)))); double k = mag / std::fabs(sum); c.near(b[0], f[1], 0, "xyzToYxy Y"); c.near(b[1], f[0] / sum, k * k * 1e-6, "xyzToYxy x"); c.near(b[2], f[1] / sum, k * k * 1e-6, "xyzToYxy y"); }
}
PBT_MAIN()
