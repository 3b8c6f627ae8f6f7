// C03: sRGB and gamma curves against the standard formulas, in double.
#include "math.hpp"
#include "math/color-space.hpp"
#include "math/tone-mapping.hpp"
using namespace pbt; using namespace math;
static double enc(double l) { return l <= 0.0031308 ? l * 12.92 : 1.055 * std::pow(l, 1 / 2.4) - 0.055; }
static double dec(double e) { return e <= 0.04045 ? e / 12.92 : std::pow((e + 0.055) / 1.055, 2.4); }
static float channel(Src& s, double knee) { switch (s.draw(4)) { case 0: return (float)(knee * s.uni(0.9, 1.1)); case 1: return (float)(knee * s.u01()); case 2: return (float)s.u01(); case 3: return s.pick({ 0.0f, 1.0f, 0.5f, 0.25f, 2.0f, (float)knee }); default: return (float)std::exp2(s.uni(-30, s.draw(3) ? 6 : 20)); } }
static F4 colour(Src& s, const char* n, double knee) { F4 r; for (auto& v : r) v = channel(s, knee); if (s.chance(1, 4)) r[3] = s.pick({ -1.0f, 0.0f, 1.0f, 7.0f }); saw(s, n, r); return r; }
LAW(encode, 4, "channels on both sides of the threshold")
{
	F4 a = colour(s, "linear", 0.0031308); f32x4 r = rgbToSrgb(simd(a)); int lo = 0; for (int i = 0; i < 3; i++) { lo += a[i] <= 0.0031308; double w = enc(a[i]), slack = std::fabs(a[i] - 0.0031308) < 1e-6 ? 2e-6 : 0; c.near(r[i], w, std::fabs(w) * 6e-6 + slack, "rgbToSrgb"); } c.eqf(r[3], a[3], "alpha of rgbToSrgb"); c.trivialIf(lo == 0 || lo == 3); f32x4 b = srgbToRgb(r); for (int i = 0; i < 3; i++) c.near(b[i], a[i], a[i] * 2e-5 + (std::fabs(a[i] - 0.0031308) < 1e-5 ? 1e-6 : 1e-30), "srgbToRgb of rgbToSrgb"); c.eqf(b[3], a[3], "alpha of srgbToRgb");
	// monotonic: a channel which is larger by more than rounding stays larger
	F4 k = a; for (int i = 0; i < 3; i++) k[i] = (float)(a[i] * s.uni(1.0001, 2) + 1e-7); f32x4 u = rgbToSrgb(simd(k)); for (int i = 0; i < 3; i++) c.check(u[i] > r[i], "rgbToSrgb(%.9g) = %.9g is not above rgbToSrgb(%.9g) = %.9g", k[i], u[i], a[i], r[i]);
}
LAW(decode, 4, "channels on both sides of the threshold")
{
	F4 a = colour(s, "sRGB", 0.04045); f32x4 r = srgbToRgb(simd(a)); int lo = 0; for (int i = 0; i < 3; i++) { lo += a[i] <= 0.04045; double w = dec(a[i]); c.near(r[i], w, std::fabs(w) * 8e-6 + (std::fabs(a[i] - 0.04045) < 1e-6 ? 1e-6 : 0), "srgbToRgb"); } c.eqf(r[3], a[3], "alpha of srgbToRgb"); c.trivialIf(lo == 0 || lo == 3); f32x4 b = rgbToSrgb(r); for (int i = 0; i < 3; i++) c.near(b[i], a[i], a[i] * 2e-5 + (std::fabs(a[i] - 0.04045) < 1e-4 ? 2e-5 : 1e-30), "rgbToSrgb of srgbToRgb");
	F4 k = a; for (int i = 0; i < 3; i++) k[i] = (float)(a[i] * s.uni(1.0001, 2) + 1e-6); f32x4 u = srgbToRgb(simd(k)); for (int i = 0; i < 3; i++) c.check(u[i] > r[i], "srgbToRgb(%.9g) = %.9g is not above srgbToRgb(%.9g) = %.9g", k[i], u[i], a[i], r[i]);
}
LAW(gamma_law, 4, "channels differ and the exponent is not one")
{
	F4 a = colour(s, "colour", 0.1); float g = s.draw(1) ? (float)s.uni(0.2, 3) : s.pick({ 1.0f, 0.5f, 1 / 2.2f, 2.0f, 1 / 2.4f }); s.say("inverse gamma", g); c.trivialIf(g == 1 || a[0] == a[1] || a[1] == a[2]); f32x4 r = fastGammaCorrection(simd(a), g), d = fastGammaCorrection(simd(a)); float g2 = (float)(g + s.uni(-0.1, 0.1)); s.say("another inverse gamma", g2); f32x4 r2 = fastGammaCorrection(simd(a), g2);
	for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { double e = k == 2 ? (double)g2 : k ? 1.0 / 2.2f : (double)g; double w = a[i] == 0 ? 0 : std::pow((double)a[i], e); c.near(k == 2 ? r2[i] : k ? d[i] : r[i], w, std::fabs(w) * (2e-6 + 2e-6 * std::fabs(std::log(a[i] == 0 ? 1 : a[i]) * e)), k ? "fastGammaCorrection with the default gamma" : "fastGammaCorrection"); } c.eqf(r[3], a[3], "alpha of fastGammaCorrection"); c.eqf(d[3], a[3], "alpha of fastGammaCorrection with the default gamma");
	c.eqf(defaultGamma, 2.2f, "default gamma"); F4 k = a; for (int i = 0; i < 3; i++) k[i] = (float)(a[i] * s.uni(1.001, 2) + 1e-6); f32x4 u = fastGammaCorrection(simd(k), g); for (int i = 0; i < 3; i++) c.check(u[i] > r[i], "fastGammaCorrection(%.9g) = %.9g is not above fastGammaCorrection(%.9g) = %.9g", k[i], u[i], a[i], r[i]);
}
PBT_MAIN()
