// R03: spherical harmonics against their closed forms and exact quadrature, in double.
#include "xform.hpp"
#include "math/sh.hpp"
using namespace pbt; using namespace math;
static const double PI = 3.14159265358979323846;
typedef std::array<double, 9> C9;
// The real spherical harmonics with the signs (Condon-Shortley phase) of the library's coefficients.
static C9 Y(D3 d)
{
	double x = d[0], y = d[1], z = d[2], k1 = std::sqrt(3 / (4 * PI)), k2 = std::sqrt(15 / (4 * PI));
	return { std::sqrt(1 / (4 * PI)), -k1 * y, k1 * z, -k1 * x, k2 * x * y, -k2 * y * z, std::sqrt(5 / (16 * PI)) * (3 * z * z - 1), -k2 * x * z, k2 / 2 * (x * x - y * y) };
}
static double eval(const C9& k, D3 d) { C9 y = Y(d); double r = 0; for (int i = 0; i < 9; i++) r += k[i] * y[i]; return r; }
static D3 fdir(Src& s, const char* n) { return fl(dir(s, n)); }
static C9 coefs(Src& s, const char* n) { C9 k; std::string t = n; for (auto& v : k) { v = s.chance(1, 5) ? 0 : s.chance(1, 3) ? (double)s.irange(-3, 3) : (double)(float)s.uni(-2, 2); if (s.verbose) t += fmt(" %.9g", v); } if (s.verbose) s.say(t); return k; }
static float3x3 rotm(Src& s, DM& m) { D4 q = qunit(anyRot(s, "rotation")); m = fl(dquat(q)); if (s.chance(1, 6)) { int p[3] = { 0, 1, 2 }; std::swap(p[0], p[s.draw(2)]); std::swap(p[1], p[1 + s.draw(1)]); bool odd = (p[0] > p[1]) ^ (p[0] > p[2]) ^ (p[1] > p[2]); m = dident(); for (int i = 0; i < 3; i++) { bool neg = i < 2 ? s.draw(1) : odd; if (i < 2 && neg) odd = !odd; for (int j = 0; j < 3; j++) m.m[i][j] = j == p[i] ? neg ? -1 : 1 : 0; } s.say("a turn onto the axes"); } return float3x3(float3((float)m.m[0][0], (float)m.m[0][1], (float)m.m[0][2]), float3((float)m.m[1][0], (float)m.m[1][1], (float)m.m[1][2]), float3((float)m.m[2][0], (float)m.m[2][1], (float)m.m[2][2])); }
static D3 turn(const DM& m, D3 v) { D3 r; for (int i = 0; i < 3; i++) r[i] = m.m[0][i] * v[0] + m.m[1][i] * v[1] + m.m[2][i] * v[2]; return r; }
static float3 flt3(D3 v) { return float3((float)v[0], (float)v[1], (float)v[2]); }
static const double A[3] = { PI, 2 * PI / 3, PI / 4 }; // cosine lobe
static int band(int i) { return i == 0 ? 0 : i < 4 ? 1 : 2; }
static double K(int l, int m) { m = std::abs(m); double f = 1; for (int i = l - m + 1; i <= l + m; i++) f /= i; return std::sqrt((2 * l + 1) / (4 * PI) * f) * (m ? std::sqrt(2.0) : 1); }
LAW(index, 0.001, "always")
{
	std::set<int> seen; int want = 0; for (int l = 0; l < ibl::shBandCount; l++) for (int m = -l; m <= l; m++) { int i = sh::shIndex(m, l); c.eqi(i, want++, "shIndex enumerates the bands in order"); c.check(seen.insert(i).second, "shIndex collides"); }
	c.eqi(want, ibl::shCoeffCount, "coefficient count"); for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) c.near(sh::ki[sh::shIndex(m, l)], K(l, m) * A[l], 2e-7, "ki: normalization times the cosine lobe");
}
LAW(basis, 4, "no coordinate of the direction is zero")
{
	D3 d = fdir(s, "d"); c.trivialIf(d[0] == 0 || d[1] == 0 || d[2] == 0); float b[9]; sh::computeShBasis(flt3(d), b); C9 y = Y(d); for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) { int i = l * (l + 1) + m; c.near(K(l, m) * b[i], y[i], 2e-6, fmt("basis function l=%d m=%d", l, m).c_str()); c.near(sh::ki[i] * b[i] / A[l], y[i], 2e-6, "ki times basis over the lobe"); }
}
LAW(orthonormal, 0.1, "a general rotation of the quadrature points")
{
	// 3 point Gauss-Legendre in z times 8 directions integrates products of bands up to 2 exactly; the points are rotated at random.
	DM m; rotm(s, m); double g[9][9] = {}; const double z3[3] = { -std::sqrt(0.6), 0, std::sqrt(0.6) }, w3[3] = { 5.0 / 9, 8.0 / 9, 5.0 / 9 };
	for (int i = 0; i < 3; i++) for (int j = 0; j < 8; j++) { double r = std::sqrt(1 - z3[i] * z3[i]), p = j * PI / 4; D3 d = turn(m, { r * std::cos(p), r * std::sin(p), z3[i] }); float b[9]; sh::computeShBasis(flt3(d), b); for (int x = 0; x < 9; x++) for (int y = 0; y < 9; y++) g[x][y] += w3[i] * 2 * PI / 8 * (double)sh::ki[x] / A[band(x)] * b[x] * (double)sh::ki[y] / A[band(y)] * b[y]; }
	for (int x = 0; x < 9; x++) for (int y = 0; y < 9; y++) c.near(g[x][y], x == y, 5e-6, fmt("inner product of basis %d and %d", x, y).c_str());
}
LAW(rotation, 4, "a rotation about a general axis and nonzero bands")
{
	C9 k = coefs(s, "sh"); if (s.chance(1, 4)) { double e = std::exp2((double)s.irange(-30, 30)); for (auto& v : k) v *= e; s.say("coefficients times", e); } DM m; float3x3 M = rotm(s, m); float in[9], out[9]; double mx = 0; for (int i = 0; i < 9; i++) { in[i] = (float)k[i]; mx += std::fabs(k[i]); } sh::rotateSh3Bands(in, M, out); C9 o; for (int i = 0; i < 9; i++) o[i] = out[i]; int zr = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) zr += std::fabs(m.m[i][j]) < 1e-3; c.trivialIf(zr > 0 || mx == 0);
	D3 d = fdir(s, "d"); D3 md = turn(m, d); auto part = [&](const C9& q, int b, D3 v) { C9 t{}; for (int i = 0; i < 9; i++) if (band(i) == b) t[i] = q[i]; return eval(t, v); };
	for (int b = 0; b < 3; b++) c.near(part(o, b, md), part(k, b, d), mx * 4e-6 + std::min(1.0, mx) * 1e-9, fmt("band %d: rotated function in the rotated direction", b).c_str());
	float b2[5]; sh::rotateSphericalHarmonicBand2(in + 4, M, b2); for (int i = 0; i < 5; i++) c.eqf(b2[i], out[4 + i], "band 2"); float3 b1 = sh::rotateSphericalHarmonicBand1(float3(in[1], in[2], in[3]), M); for (int i = 0; i < 3; i++) c.eqf(b1[i], out[1 + i], "band 1");
	// in place, as shmin uses it, and lengths per band are kept
	float w[9]; memcpy(w, in, sizeof w); sh::rotateSh3Bands(w, M, w); for (int i = 0; i < 9; i++) c.eqf(w[i], out[i], "in place");
	for (int b = 0; b < 3; b++) { double p = 0, q = 0; for (int i = 0; i < 9; i++) if (band(i) == b) p += k[i] * k[i], q += o[i] * o[i]; c.near(q, p, (p + mx * mx) * 1e-5 + 1e-9, "power of the band"); }
}
LAW(rotationComposes, 2, "two general rotations")
{
	C9 k = coefs(s, "sh"); DM m, n; float3x3 M = rotm(s, m), N = rotm(s, n); float in[9], a[9], b[9]; double mx = 0; for (int i = 0; i < 9; i++) { in[i] = (float)k[i]; mx += std::fabs(k[i]); } c.trivialIf(mx == 0); sh::rotateSh3Bands(in, M, a); sh::rotateSh3Bands(a, N, a); sh::rotateSh3Bands(in, N * M, b); for (int i = 0; i < 9; i++) c.near(a[i], b[i], mx * 1e-5, fmt("coefficient %d of two rotations", i).c_str());
}
LAW(pieces, 2, "general values")
{
	D3 d = fdir(s, "d"); float p[5]; sh::projectVecToSH2K(flt3(d), p); C9 y = Y(d); double k = std::sqrt(15 / (4 * PI)); for (int i = 0; i < 5; i++) c.near(p[i] * k, y[4 + i], 2e-6, fmt("projectVecToSH2K %d", i).c_str());
	float m[25], v[5], r[5]; for (auto& x : m) x = (float)s.irange(-9, 9); for (auto& x : v) x = (float)s.irange(-9, 9); sh::multiply(m, v, r); for (int i = 0; i < 5; i++) { double w = 0; for (int j = 0; j < 5; j++) w += m[j * 5 + i] * v[j]; c.eqf(r[i], w, "multiply: columns times the vector"); }
}
static double sincw(int l, double w) { if (l == 0) return 1; if (l >= w) return 0; double x = PI * l / w; x = std::sin(x) / x; return x * x * x * x; }
LAW(windowing, 2, "the cutoff is above the band")
{
	double w = s.chance(1, 8) ? (float)s.uni(0.001, 0.5) : s.chance(1, 8) ? (float)s.irange(1, 14) : (float)s.uni(0.5, 14); s.say("cutoff", w); C9 k = coefs(s, "sh"); c.trivialIf(w <= 2); float f[9]; for (int i = 0; i < 9; i++) f[i] = (float)k[i]; sh::windowing(f, (float)w);
	for (int l = 0; l < 6; l++) { c.near(sh::sincWindow(l, (float)w), sincw(l, w), 3e-6, "sincWindow"); c.check(l == 0 || sh::sincWindow(l, (float)w) <= sh::sincWindow(l - 1, (float)w) + 1e-6f, "sincWindow is not decreasing"); } for (int i = 0; i < 9; i++) c.near(f[i], k[i] * sincw(band(i), w), std::fabs(k[i]) * 4e-6 + 1e-12, fmt("windowed coefficient %d", i).c_str());
}
// The lower bound deringing searches: in the frame whose z axis is the linear band the function is at least
// f(z) = a z^2 + b z + c + d z sqrt(1 - z^2). Dense search refined by ternary search; `sure` when Newton's method from
// z = -1/sqrt(2), which the algorithm uses, arrives at that minimum, also for slightly disturbed coefficients.
struct Min { double v; bool sure; };
static double newton(double a, double b, double c, double d, bool& ok)
{
	auto f = [&](double z) { return a * z * z + b * z + c + d * z * std::sqrt(1 - z * z); }; double z = -std::sqrt(0.5), dz = 0, m = 0; int n = 0;
	do { m = f(z); double q = std::sqrt(1 - z * z); dz = (z * z - 1) * (d - 2 * d * z * z + (b + 2 * a * z) * q) / (3 * d * z - 2 * d * z * z * z - 2 * a * q * q * q); z -= dz; } while (std::fabs(z) <= 1 && std::fabs(dz) > 1e-5 && ++n < 12);
	if (n >= 12 || !(m == m)) ok = false; if (std::fabs(z) > 1) m = std::min(a + b + c, a - b + c); return m;
}
static Min refMin(const C9& k, double scale)
{
	D3 dir = { -k[3], -k[1], k[2] }; double l = dlen(dir); if (l > 0) for (auto& v : dir) v /= l; else dir = { 0, 0, 1 }; D3 up = std::fabs(dir[1]) < 0.9 ? D3{ 0, 1, 0 } : D3{ 1, 0, 0 }, xa = dnorm(dcross(up, dir)), ya = dcross(dir, xa);
	C9 r{}; static const double z3[3] = { -std::sqrt(0.6), 0, std::sqrt(0.6) }, w3[3] = { 5.0 / 9, 8.0 / 9, 5.0 / 9 }; // coefficients in that frame, by quadrature
	for (int i = 0; i < 3; i++) for (int j = 0; j < 6; j++) { double q = std::sqrt(1 - z3[i] * z3[i]), p = j * PI / 3; D3 local = { q * std::cos(p), q * std::sin(p), z3[i] }, world; for (int t = 0; t < 3; t++) world[t] = xa[t] * local[0] + ya[t] * local[1] + dir[t] * local[2]; double f = eval(k, world) * w3[i] * 2 * PI / 6; C9 b = Y(local); for (int t = 0; t < 9; t++) r[t] += f * b[t]; }
	double c0 = std::sqrt(1 / (4 * PI)), c1 = std::sqrt(3 / (4 * PI)), c2 = std::sqrt(15 / (4 * PI)), c6 = std::sqrt(5 / (16 * PI)), c8 = c2 / 2;
	double mm = c8 * std::sqrt(r[8] * r[8] + r[4] * r[4]), a = 3 * c6 * r[6] + mm, b = c1 * r[2], cc = c0 * r[0] - c6 * r[6] - mm, d = c2 * std::sqrt(r[5] * r[5] + r[7] * r[7]);
	auto f = [&](double t) { double z = std::cos(t); return a * z * z + b * z + cc + d * z * std::sin(t); };
	double best = 1e300, at = 0; for (int i = 0; i <= 120; i++) { double t = PI * i / 120, v = f(t); if (v < best) best = v, at = t; }
	double lo = std::max(0.0, at - PI / 120), hi = std::min(PI, at + PI / 120); for (int i = 0; i < 40; i++) { double u = lo + (hi - lo) / 3, w = hi - (hi - lo) / 3; if (f(u) < f(w)) hi = w; else lo = u; } best = std::min(best, f((lo + hi) / 2));
	Min m{ best, true }; double zm = -b / (2 * a), quad = a > 0 && zm >= -1 && zm <= 1 ? a * zm * zm + b * zm + cc : std::min(a + b + cc, a - b + cc); if (quad - d / 2 > 1e-4 * scale) return m;
	for (int i = 0; i < 5; i++) { double e = 2e-4 * scale; double n = newton(a + (i == 1) * e - (i == 2) * e, b, cc, d + (i == 3) * e - (i == 4) * e, m.sure); if (!(std::fabs(n - best) < 6e-4 * scale)) m.sure = false; }
	return m;
}
static C9 light(Src& s, const char* n) // coefficients of a plausible environment: a positive mean and some directional light
{
	C9 k = coefs(s, n); double q = (float)s.uni(0, 1), q2 = (float)s.uni(0, 1); k[0] = (float)s.uni(0.2, 4); for (int i = 1; i < 9; i++) k[i] = (float)(k[i] * (i < 4 ? q : q2)); if (s.chance(1, 6)) k[1 + s.draw(2)] = 0; if (s.chance(1, 12)) { k[2] = k[3] = 0; if (k[1] == 0) k[1] = 0.5; } if (s.verbose) { std::string t = "scaled"; for (auto v : k) t += fmt(" %.9g", v); s.say(t); } return k;
}
static double size(const C9& k) { double r = 0; for (auto v : k) r += std::fabs(v); return r; }
LAW(minimum, 0.4, "the function is negative somewhere")
{
	C9 k = light(s, "sh"); double sc = size(k), lin = std::fabs(k[1]) + std::fabs(k[2]) + std::fabs(k[3]); c.assume(lin > 1e-2 * sc); Min w = refMin(k, sc); c.assume(w.sure && std::fabs(w.v) > 2e-3 * sc); c.trivialIf(w.v > 0); float f[9]; for (int i = 0; i < 9; i++) f[i] = (float)k[i]; double g = sh::shmin(f);
	c.check(std::isfinite(g), "shmin is %g", g); c.check((g < 0) == (w.v < 0), "shmin %.9g, the minimum is %.9g", g, w.v); if (w.v < 0) c.near(g, w.v, 1e-3 * sc, "shmin"); else c.check(g < w.v + 1e-3 * sc, "shmin %.9g above the minimum %.9g", g, w.v);
	// It is a lower bound of the function: no direction is below it.
	for (int i = 0; i < 8; i++) { D3 d = dir(s, "d"); double v = eval(k, d); c.check(v >= g - 1e-3 * sc, "the function is %.9g in a direction, shmin is %.9g", v, g); }
}
// Every cutoff the bisection can arrive at: where the sign of the minimum is within rounding (or Newton's method is at a loss) both.
static void cutoffs(const C9& k, double sc, double l, double r, std::set<double>& out)
{
	if (out.size() > 24) return;
	while (l + 0.1f < r)
	{
		double m = (l + r) / 2; C9 w = k; for (int i = 0; i < 9; i++) w[i] *= sincw(band(i), m); Min v = refMin(w, sc); if (!v.sure || std::fabs(v.v) < 1e-3 * sc) { cutoffs(k, sc, l, m, out); l = m; continue; } if (v.v < 0) r = m; else l = m;
	}
	out.insert(l);
}
static std::set<double> cutoffs(const C9 ch[3], Case& c)
{
	std::set<double> cur = { 13 }; for (int q = 0; q < 3; q++) { double sc = size(ch[q]), lin = std::fabs(ch[q][1]) + std::fabs(ch[q][2]) + std::fabs(ch[q][3]); c.assume(lin > 1e-2 * sc); std::set<double> next; for (double r : cur) { std::set<double> t; cutoffs(ch[q], sc, 3, r, t); for (double l : t) next.insert(std::min(r, l)); c.assume(next.size() < 8); } cur = next; } return cur;
}
static void matches(Case& c, const C9 ch[3], const f32x4* out, const std::set<double>& cs)
{
	double best = 1e300, at = 0; for (double cut : cs) { double e = 0; for (int i = 0; i < 9; i++) for (int q = 0; q < 3; q++) { double d = std::fabs(arr(out[i])[q] - ch[q][i] * sincw(band(i), cut)) / (std::fabs(ch[q][i]) * 1e-5 + 1e-9); e = std::max(e, d == d ? d : 1e300); } if (e < best) best = e, at = cut; }
	if (best <= 1) return; for (int i = 0; i < 9; i++) { F4 a = arr(out[i]); for (int q = 0; q < 3; q++) c.near(a[q], ch[q][i] * sincw(band(i), at), std::fabs(ch[q][i]) * 1e-5 + 1e-9, fmt("channel %d coefficient %d with cutoff %.4f", q, i, at).c_str()); }
}
LAW(dering, 0.15, "some channel has to be windowed")
{
	f32x4 out[9]; C9 ch[3]; for (int q = 0; q < 3; q++) ch[q] = light(s, q == 0 ? "red" : q == 1 ? "green" : "blue"); auto cs = cutoffs(ch, c); c.trivialIf(*cs.begin() > 12.5); float w = (float)s.uni(-1, 1); for (int i = 0; i < 9; i++) out[i] = f32x4((float)ch[0][i], (float)ch[1][i], (float)ch[2][i], w); sh::deringingSH(out); matches(c, ch, out, cs);
	c.cls(*cs.begin() > 12.5 ? "not windowed" : *cs.begin() > 3.2 ? "partly windowed" : "lowest cutoff"); if (cs.size() == 1) c.cls("one possible cutoff");
}
LAW(deringShape, 0.4, "the linear band of some channel is not zero")
{
	// Any input: one window for all channels, with a cutoff in [3, 13], and nothing but scaling of the bands.
	f32x4 v[9]; C9 ch[3]; bool lin = false; for (int q = 0; q < 3; q++) { ch[q] = s.chance(1, 2) ? light(s, "channel") : coefs(s, "channel"); if (s.chance(1, 6)) ch[q][1] = ch[q][2] = ch[q][3] = 0; if (s.chance(1, 12)) ch[q] = C9{}; lin |= ch[q][1] || ch[q][2] || ch[q][3]; } c.trivialIf(!lin); for (int i = 0; i < 9; i++) v[i] = f32x4((float)ch[0][i], (float)ch[1][i], (float)ch[2][i], 0.0f); sh::deringingSH(v);
	double k[3] = { -1, -1, -1 }; for (int i = 0; i < 9; i++) { F4 a = arr(v[i]); for (int q = 0; q < 3; q++) { double w = ch[q][i]; c.check(std::isfinite(a[q]), "coefficient %d is %g", i, a[q]); if (w == 0) { c.eqf(a[q], 0, "a zero coefficient"); continue; } double t = a[q] / w; if (k[band(i)] < 0) k[band(i)] = t; c.near(t, k[band(i)], 1e-5, "scale of the band"); } }
	if (k[0] >= 0) c.near(k[0], 1, 1e-6, "scale of the constant band"); for (int l = 1; l < 3; l++) if (k[l] >= 0) c.check(k[l] > sincw(l, 3) - 1e-5 && k[l] < sincw(l, 13) + 1e-5, "band %d is scaled by %.9g", l, k[l]);
	if (k[1] >= 0 && k[2] >= 0) { double lo = 3, hi = 13; for (int i = 0; i < 50; i++) { double m = (lo + hi) / 2; (sincw(1, m) < k[1] ? lo : hi) = m; } c.near(k[2], sincw(2, lo), 3e-3, "both bands have one cutoff"); }
}
LAW(axisLight, 0.2, "some windowing")
{
	// A light along an axis (also the vertical one) is windowed like the same light along any other direction.
	double k0 = (float)s.uni(0.5, 3), k1 = (float)s.uni(0.2, 2), k2 = (float)s.uni(0.2, 2); D3 d = { 0, 0, 0 }; int a = (int)s.draw(2); d[a] = s.draw(1) ? -1 : 1; saw(s, "light", d); s.say(fmt("bands %.9g %.9g %.9g", k0, k1, k2)); auto mk = [&](D3 e) { C9 y = Y(e), r; for (int i = 0; i < 9; i++) r[i] = (float)(y[i] * (band(i) == 0 ? k0 : band(i) == 1 ? k1 : k2) * 4); return r; };
	D3 o = dnorm({ 0.3, 0.5, -0.8 }); C9 p[3] = { mk(d), mk(d), mk(d) }, q[3] = { mk(o), mk(o), mk(o) }; auto cs = cutoffs(q, c); c.trivialIf(*cs.begin() > 12.5); f32x4 v[9]; for (int i = 0; i < 9; i++) v[i] = f32x4((float)p[0][i]); sh::deringingSH(v); matches(c, p, v, cs);
}
LAW(evenLight, 0.3, "a direction is dark before")
{
	// A light that is the same in opposite directions (no linear band at all) is windowed as well: no direction stays dark, unless the lowest cutoff is reached.
	C9 k = light(s, "sh"); k[1] = k[2] = k[3] = 0; if (s.chance(1, 3)) k[4] = k[5] = k[7] = k[8] = 0; double sc = size(k), before = 1e300, after = 1e300; Min w = refMin(k, sc); f32x4 v[9]; for (int i = 0; i < 9; i++) v[i] = f32x4((float)k[i]); sh::deringingSH(v); C9 o; for (int i = 0; i < 9; i++) { o[i] = arr(v[i])[1]; c.check(std::isfinite(o[i]), "coefficient %d is %g", i, o[i]); }
	for (int i = 0; i <= 24; i++) for (int j = 0; j < 48; j++) { double q = PI * i / 24, p = PI * j / 24; D3 d = { std::sin(q) * std::cos(p), std::sin(q) * std::sin(p), std::cos(q) }; before = std::min(before, eval(k, d)); after = std::min(after, eval(o, d)); } c.assume(w.sure); c.trivialIf(before >= 0);
	double k2 = 0; for (int i = 4; i < 9; i++) if (k[i]) k2 = o[i] / k[i]; c.cls(before >= 0 ? "bright" : after < 0 ? "lowest cutoff" : "dark directions"); c.check(after > -3e-3 * sc || k2 < sincw(2, 3.2), "a direction is at %.9g (%.9g before), with band 2 scaled by %.9g", after, before, k2);
	if (w.v > 3e-3 * sc) c.check(k2 == 0 || k2 > sincw(2, 12.5), "an environment without dark directions is windowed: band 2 is scaled by %.9g", k2);
}
LAW(preprocess, 2, "at most half of the coefficients are zero")
{
	f32x4 v[9]; C9 ch[4]; int z = 0; for (auto& q : ch) { q = coefs(s, "channel"); for (auto x : q) z += x == 0; } c.trivialIf(z > 18); for (int i = 0; i < 9; i++) v[i] = f32x4((float)ch[0][i], (float)ch[1][i], (float)ch[2][i], (float)ch[3][i]); sh::shaderPreprocessSH(v); D3 d = fdir(s, "d"); double x = d[0], y = d[1], w = d[2]; const double poly[9] = { 1, y, w, x, y * x, y * w, 3 * w * w - 1, w * x, x * x - y * y };
	for (int q = 0; q < 4; q++) { double sum = 0; for (int i = 0; i < 9; i++) sum += arr(v[i])[q] * poly[i]; c.near(sum, eval(ch[q], d) / PI, size(ch[q]) * 2e-6 + 1e-9, "the shader polynomial is the function over pi"); }
	C9 k = ch[0]; for (int i = 0; i < 9; i++) { D3 e = dnorm({ 0.36, 0.48, 0.8 }); double pe[9] = { 1, e[1], e[2], e[0], e[1] * e[0], e[1] * e[2], 3 * e[2] * e[2] - 1, e[2] * e[0], e[0] * e[0] - e[1] * e[1] }; c.near(arr(v[i])[0] * pe[i], k[i] * Y(e)[i] / PI, std::fabs(k[i]) * 1e-6 + 1e-12, fmt("coefficient %d", i).c_str()); }
}
LAW(irradiance, 0.05, "a light off the axes")
{
	// ki times basis, summed with the shader preprocessing: the irradiance of one distant light is the clamped cosine's projection.
	D3 L = fdir(s, "light"), n = fdir(s, "normal"); c.trivialIf(L[0] == 0 || L[1] == 0 || L[2] == 0); float b[9]; sh::computeShBasis(flt3(L), b); f32x4 v[9]; for (int i = 0; i < 9; i++) v[i] = f32x4(b[i] * sh::ki[i]); sh::shaderPreprocessSH(v); double x = n[0], y = n[1], w = n[2]; const double poly[9] = { 1, y, w, x, y * x, y * w, 3 * w * w - 1, w * x, x * x - y * y }; double sum = 0; for (int i = 0; i < 9; i++) sum += arr(v[i])[2] * poly[i];
	double t = ddot(L, n); c.near(sum * PI, 0.25 + 0.5 * t + 5.0 / 32 * (3 * t * t - 1) , 5e-6, "projected clamped cosine"); 
}
PBT_MAIN()
