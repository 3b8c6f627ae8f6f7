// C01: 8-bit colours against their four bytes.
#include "math.hpp"
#include "math/color.hpp"
using namespace pbt; using namespace math;
typedef std::array<uint8_t, 4> B4;
static uint8_t octet(Src& s) { return s.chance(1, 3) ? s.pick<uint8_t>({ 0, 1, 127, 128, 254, 255, 15, 16, 9, 10, 160 }) : (uint8_t)s.draw(255); }
static B4 bytes(Src& s, const char* n) { B4 b; for (auto& v : b) v = octet(s); if (s.verbose) s.say(fmt("%s=(%d,%d,%d,%d)", n, b[0], b[1], b[2], b[3])); return b; }
static Color make(const B4& b) { return Color(b[0], b[1], b[2], b[3]); }
static void same(Case& c, Color k, B4 b, const char* what) { if (k.r != b[0] || k.g != b[1] || k.b != b[2] || k.a != b[3]) c.fail(fmt("%s: got (%d,%d,%d,%d), expected (%d,%d,%d,%d)", what, k.r, k.g, k.b, k.a, b[0], b[1], b[2], b[3])); }
LAW(round_trips, 5, "the four channels are different")
{
	B4 b = bytes(s, "c"); Color k = make(b); c.trivialIf(b[0] == b[1] || b[1] == b[2] || b[2] == b[3] || b[0] == b[3]); same(c, k, b, "constructor"); uint32_t n = b[0] | ((uint32_t)b[1] << 8) | ((uint32_t)b[2] << 16) | ((uint32_t)b[3] << 24); c.equ((uint32_t)k, n, "binary data"); same(c, Color(n), b, "colour of the binary data"); same(c, Color(b[0]), { b[0], b[0], b[0], b[0] }, "colour of one number"); same(c, Color(), { 0, 0, 0, 0 }, "default colour");
	// colours anywhere in memory
	alignas(8) uint8_t buf[16]; size_t off = s.draw(7); Color* p = new (buf + off) Color(n); same(c, *p, b, "colour of the binary data, at an odd address"); c.equ((uint32_t)*p, n, "binary data, at an odd address");
	same(c, Color((float4)k), b, "colour of its float4"); same(c, Color((f32x4)k), b, "colour of its f32x4"); same(c, Color((float3)k), { b[0], b[1], b[2], 0 }, "colour of its float3"); same(c, Color((float2)k), { b[0], b[1], 0, 0 }, "colour of its float2");
	float4 v = (float4)k; f32x4 x = (f32x4)k; float3 v3 = (float3)k; float2 v2 = (float2)k; float nr[4] = { k.getNormR(), k.getNormG(), k.getNormB(), k.getNormA() }; for (int i = 0; i < 4; i++) { c.near(v[i], b[i] / 255.0, 1.3e-7, "float4"); c.near(x[i], b[i] / 255.0, 1.3e-7, "f32x4"); c.near(nr[i], b[i] / 255.0, 1.3e-7, "getNorm"); if (i < 3) c.near(v3[i], b[i] / 255.0, 1.3e-7, "float3"); if (i < 2) c.near(v2[i], b[i] / 255.0, 1.3e-7, "float2"); }
	Color t = make(bytes(s, "other")); t.setNormR(nr[0]); t.setNormG(nr[1]); t.setNormB(nr[2]); t.setNormA(nr[3]); same(c, t, b, "setNorm of getNorm");
	const char* d = "0123456789ABCDEF"; std::string h[4], txt[4]; for (int i = 0; i < 4; i++) { for (int j = 0; j <= i; j++) { h[i] += d[b[j] >> 4]; h[i] += d[b[j] & 15]; txt[i] += (j ? " " : "") + std::to_string(b[j]); } } c.check(k.toHex4() == h[3] && k.toHex3() == h[2], "toHex4 is %s, expected %s; toHex3 is %s", k.toHex4().c_str(), h[3].c_str(), k.toHex3().c_str()); same(c, Color(h[3]), b, "colour of its 8 digits"); same(c, Color(h[2]), { b[0], b[1], b[2], 0 }, "colour of its 6 digits"); for (auto& ch : h[3]) ch = (char)tolower(ch); same(c, Color(h[3]), b, "colour of its 8 lower case digits");
	c.check(k.toString1() == txt[0] && k.toString2() == txt[1] && k.toString3() == txt[2] && k.toString4() == txt[3], "toString4 is %s", k.toString4().c_str()); same(c, Color::fromLinear(k.toLinear()), b, "fromLinear of toLinear");
	auto curve = [](double e) { return e <= 0.04045 ? e / 12.92 : std::pow((e + 0.055) / 1.055, 2.4); }; f32x4 l = k.toLinear(); for (int i = 0; i < 3; i++) c.near(l[i], curve(b[i] / 255.0), 2e-5 * curve(b[i] / 255.0) + 1e-7, "toLinear"); c.near(l[3], b[3] / 255.0, 1.3e-7, "alpha of toLinear");
}
// Normalised values become the nearest byte, whichever way they are stored.
LAW(rounding, 4, "some channel is strictly inside 0..1")
{
	float f[4]; B4 lo, hi; bool inside = false; for (int i = 0; i < 4; i++) { switch (s.draw(3)) { case 0: f[i] = (float)(s.irange(-2, 514) / 510.0); break; case 1: f[i] = (float)((s.draw(255) + 0.5) / 255.0 + s.uni(-1e-3, 1e-3)); break; case 2: f[i] = s.pick({ 0.0f, 1.0f, -0.0f, -1.0f, 2.0f, 1e30f, -1e30f, 0.5f }); break; default: f[i] = s.chance(1, 6) ? (float)(std::exp2(s.uni(-40, 20)) * (s.draw(1) ? 1 : -1)) : (float)s.uni(-0.2, 1.2); } s.say("f", f[i]); double v = std::min(1.0, std::max(0.0, (double)f[i])) * 255; inside |= v > 0 && v < 255; lo[i] = (uint8_t)std::floor(v + 0.5 - 2e-4); hi[i] = (uint8_t)std::min(255.0, std::floor(v + 0.5 + 2e-4)); }
	c.trivialIf(!inside); auto ok = [&](Color k, int n, const char* what) { uint8_t g[4] = { k.r, k.g, k.b, k.a }; for (int i = 0; i < 4; i++) if (i < n ? (g[i] < lo[i] || g[i] > hi[i]) : g[i] != 0) c.fail(fmt("%s: channel %d of %.9g is %d, expected %d", what, i, f[i], g[i], i < n ? lo[i] : 0)); };
	ok(Color(float4(f[0], f[1], f[2], f[3])), 4, "Color(float4)"); ok(Color(f32x4(f[0], f[1], f[2], f[3])), 4, "Color(f32x4)"); ok(Color(float3(f[0], f[1], f[2])), 3, "Color(float3)"); ok(Color(float2(f[0], f[1])), 2, "Color(float2)"); Color t = make(bytes(s, "t")); t.setNormR(f[0]); t.setNormG(f[1]); t.setNormB(f[2]); t.setNormA(f[3]); ok(t, 4, "setNormR/G/B/A");
	Color u = make(bytes(s, "u")), w = u; int ch = (int)s.draw(3); if (ch == 0) u.setNormR(f[0]); else if (ch == 1) u.setNormG(f[0]); else if (ch == 2) u.setNormB(f[0]); else u.setNormA(f[0]); c.check((ch == 0 || u.r == w.r) && (ch == 1 || u.g == w.g) && (ch == 2 || u.b == w.b) && (ch == 3 || u.a == w.a), "setting one channel changes another");
}
// Linear colours of any value, alpha too, become the nearest sRGB byte.
LAW(from_linear, 2, "some colour channel is strictly inside 0..1")
{
	float f[4]; B4 lo, hi; bool inside = false; for (int i = 0; i < 4; i++)
	{
		f[i] = s.draw(2) ? (float)s.uni(-0.1, 1.1) : s.pick({ 0.0f, 1.0f, 0.5f, -1.0f, 0.0031308f, 0.001f, 0.003f, 4.0f, 100.0f, 0.2f, -0.0f }); s.say("f", f[i]); double v = std::min(1.0, std::max(0.0, (double)f[i]));
		if (i < 3) { inside |= v > 0 && v < 1; v = v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; } v *= 255; lo[i] = (uint8_t)std::max(0.0, std::floor(v + 0.5 - 0.01)); hi[i] = (uint8_t)std::min(255.0, std::floor(v + 0.5 + 0.01));
	}
	c.trivialIf(!inside); Color k = Color::fromLinear(f32x4(f[0], f[1], f[2], f[3])); uint8_t g[4] = { k.r, k.g, k.b, k.a }; for (int i = 0; i < 4; i++) if (g[i] < lo[i] || g[i] > hi[i]) c.fail(fmt("fromLinear: channel %d of %.9g is %d, expected %d", i, f[i], g[i], lo[i]));
}
LAW(comparison, 4, "the colours differ, and not in every channel")
{
	B4 a = bytes(s, "a"), b = bytes(s, "b"); int m = (int)s.draw(15); for (int i = 0; i < 4; i++) if (m >> i & 1) b[i] = a[i]; int up = (int)s.draw(4); if (up < 4) for (int i = 0; i < 4; i++) if (i != up && b[i] < a[i]) std::swap(a[i], b[i]); Color x = make(a), y = make(b); c.trivialIf(!m || a == b); uint8_t n = s.draw(1) ? a[s.draw(3)] : octet(s); s.say("n", n); if (s.chance(1, 4)) { for (auto& v : a) v = (uint8_t)(n + s.irange(-1, 1)); x = make(a); saw(s, "a'", D4{ (double)a[0], (double)a[1], (double)a[2], (double)a[3] }); }
	auto all = [](const B4& p, const B4& q, auto f) { for (int i = 0; i < 4; i++) if (!f(p[i], q[i])) return false; return true; }; B4 k = { n, n, n, n };
	#define CMP(op) { auto f = [](int p, int q) { return p op q; }; c.check((x op y) == all(a, b, f), "a " #op " b is %d", (int)(x op y)); c.check((x op n) == all(a, k, f), "a " #op " n is %d", (int)(x op n)); c.check((n op x) == all(k, a, f), "n " #op " a is %d", (int)(n op x)); }
	CMP(<) CMP(>) CMP(<=) CMP(>=) CMP(==) c.check((x != y) == (a != b), "a != b is %d", (int)(x != y)); c.check((x != n) == (a != k), "a != n is %d", (int)(x != n)); c.check((n != x) == (a != k), "n != a is %d", (int)(n != x));
	uint32_t u = (uint32_t)x, v = (uint32_t)y; c.check(isBinaryLess(x, y) == (u < v) && isBinaryLess(y, x) == (v < u), "isBinaryLess is %d", (int)isBinaryLess(x, y)); alignas(8) uint8_t buf[16]; Color* p = new (buf + s.draw(7)) Color(x); c.check(isBinaryLess(*p, y) == (u < v) && *p == x, "isBinaryLess at an odd address");
}
LAW(constants, 0.02, "always") { same(c, Color::white, { 255, 255, 255, 255 }, "white"); same(c, Color::black, { 0, 0, 0, 255 }, "black"); same(c, Color::grey, { 127, 127, 127, 255 }, "grey"); same(c, Color::transparent, { 0, 0, 0, 0 }, "transparent"); same(c, Color::red, { 255, 0, 0, 255 }, "red"); same(c, Color::green, { 0, 255, 0, 255 }, "green"); same(c, Color::blue, { 0, 0, 255, 255 }, "blue"); same(c, Color::cyan, { 0, 255, 255, 255 }, "cyan"); same(c, Color::magenta, { 255, 0, 255, 255 }, "magenta"); same(c, Color::yellow, { 255, 255, 0, 255 }, "yellow"); }
PBT_MAIN()
