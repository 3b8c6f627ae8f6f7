// Includes cfnptr/math for a harness, and the generators and reference arithmetic (in double) the harnesses share.
#pragma once
#include "pbt.hpp"
#if defined(PBT_SCALAR)
// The library picks its portable implementation when no known CPU is detected: hide the CPU from the math headers only.
#undef __x86_64__
#undef __i386__
#define __arm__ 1
#endif
#if defined(PBT_NEON)
// The Arm implementation, over the intrinsics in fw/neon.
#undef __x86_64__
#undef __i386__
#define __aarch64__ 1
#endif
#include "math/types.hpp"
#include "math/simd/types.hpp"
#if defined(PBT_SCALAR)
#undef __arm__
#elif defined(PBT_NEON)
#undef __aarch64__
#endif
#include "math/common.hpp"
#include "math/vector.hpp"

namespace pbt
{
typedef std::array<float, 4> F4; typedef std::array<float, 3> F3; typedef std::array<float, 2> F2;
typedef std::array<int32_t, 4> I4; typedef std::array<uint32_t, 4> U4;
typedef std::array<double, 3> D3; typedef std::array<double, 4> D4;
constexpr double EPS = 5.9604644775390625e-8; // half an ulp of 1.0f

inline math::f32x4 simd(const F4& a) { return math::f32x4(a[0], a[1], a[2], a[3]); }
inline math::f32x4 simd(const D3& a, float w = 0.0f) { return math::f32x4((float)a[0], (float)a[1], (float)a[2], w); }
inline math::i32x4 simd(const I4& a) { return math::i32x4(a[0], a[1], a[2], a[3]); }
inline math::u32x4 simd(const U4& a) { return math::u32x4(a[0], a[1], a[2], a[3]); }
inline math::float4 vec(const F4& a) { return math::float4(a[0], a[1], a[2], a[3]); }
inline math::float3 vec(const F3& a) { return math::float3(a[0], a[1], a[2]); }
inline F4 arr(const math::f32x4& v) { F4 r; memcpy(&r, &v, 16); return r; }
inline I4 arr(const math::i32x4& v) { I4 r; memcpy(&r, &v, 16); return r; }
inline U4 arr(const math::u32x4& v) { U4 r; memcpy(&r, &v, 16); return r; }
inline D3 d3(const math::f32x4& v) { F4 a = arr(v); return { a[0], a[1], a[2] }; }
inline D3 d3(const math::float3& v) { return { v.x, v.y, v.z }; }
inline D3 d3(const F3& v) { return { v[0], v[1], v[2] }; }

template<class A> inline void saw(Src& s, const char* n, const A& a)
{
	if (!s.verbose) return;
	std::string t = std::string(n) + "=("; for (size_t i = 0; i < a.size(); i++) t += fmt(i ? ",%.9g" : "%.9g", (double)a[i]); s.say(t + ")");
}
inline F4 any4(Src& s, const char* n, bool inf = true) { F4 a; for (auto& v : a) v = s.anyFloat(inf); saw(s, n, a); return a; }
inline F4 real4(Src& s, const char* n, double lo, double hi) { F4 a; for (auto& v : a) v = s.real(lo, hi); saw(s, n, a); return a; }
inline F3 real3(Src& s, const char* n, double lo, double hi) { F3 a; for (auto& v : a) v = s.real(lo, hi); saw(s, n, a); return a; }
inline I4 int4v(Src& s, const char* n) { I4 a; for (auto& v : a) v = s.anyI32(); saw(s, n, a); return a; }
inline U4 uint4v(Src& s, const char* n) { U4 a; for (auto& v : a) v = s.anyU32(); saw(s, n, a); return a; }
inline float junk(Src& s) { return s.chance(1, 6) ? s.anyFloat() : s.pick({ 0.0f, NAN, INFINITY, -INFINITY, 1.0f, -7.25f, 1e6f, -3e5f, 42.0f, -1.0f, 0.5f, 3.0f, -0.003f }); } // content of an unused w lane

// --- double reference vectors
inline D3 operator+(D3 a, D3 b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
inline D3 operator-(D3 a, D3 b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
inline D3 operator*(D3 a, double k) { return { a[0] * k, a[1] * k, a[2] * k }; }
inline double ddot(D3 a, D3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline D3 dcross(D3 a, D3 b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
inline double dlen(D3 a) { return std::sqrt(ddot(a, a)); }
inline D3 dnorm(D3 a) { return a * (1.0 / dlen(a)); }
inline double dmaxabs(D3 a) { return std::max(std::fabs(a[0]), std::max(std::fabs(a[1]), std::fabs(a[2]))); }

struct DM { double m[4][4]; }; // [column][row]
inline DM dident() { DM r{}; for (int i = 0; i < 4; i++) r.m[i][i] = 1; return r; }
// Gives a matrix one of the shapes a shortcut would look for: affine, no translation, diagonal, a signed permutation, triangular, the identity but for one entry.
inline void shaped(Src& s, DM& a, int n = 4)
{
	int k = (int)s.draw(8), l = n - 1;
	auto bottom = [&] { for (int i = 0; i < n; i++) a.m[i][l] = i == l; }; auto column = [&] { for (int j = 0; j < n; j++) a.m[l][j] = j == l; };
	if (k == 0 || k == 1 || k == 3) bottom(); if (k == 2 || k == 3) column();
	if (k == 4) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a.m[i][j] = 0;
	if (k == 5) { int p[4] = { 0, 1, 2, 3 }; for (int i = l; i > 0; i--) std::swap(p[i], p[s.draw((uint64_t)i)]); for (int i = 0; i < n; i++) { double v = s.draw(1) ? 1 : -1; for (int j = 0; j < n; j++) a.m[i][j] = j == p[i] ? v : 0; } }
	if (k == 6) { bool up = s.draw(1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? j > i : j < i) a.m[i][j] = 0; }
	if (k == 7) { int ci = (int)s.draw((uint64_t)l), cj = (int)s.draw((uint64_t)l); double v = a.m[ci][cj]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.m[i][j] = i == j; a.m[ci][cj] = v; }
	if (k == 8) { int ci = (int)s.draw((uint64_t)l); for (int j = 0; j < n; j++) a.m[ci][j] = j == ci; } // one column of the identity
}
inline DM dmul(const DM& a, const DM& b)
{
	DM r{}; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.m[c][i] += a.m[k][i] * b.m[c][k];
	return r;
}
inline D4 dmulv(const DM& a, D4 v) { D4 r{}; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r[i] += a.m[k][i] * v[k]; return r; }
inline DM dabs(const DM& a) { DM r; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) r.m[c][i] = std::fabs(a.m[c][i]); return r; }
// Rotation matrix of a unit quaternion (x,y,z,w), the textbook formula.
inline DM dquat(D4 q)
{
	double x = q[0], y = q[1], z = q[2], w = q[3]; DM r = dident();
	r.m[0][0] = 1 - 2 * (y * y + z * z); r.m[0][1] = 2 * (x * y + w * z); r.m[0][2] = 2 * (x * z - w * y);
	r.m[1][0] = 2 * (x * y - w * z); r.m[1][1] = 1 - 2 * (x * x + z * z); r.m[1][2] = 2 * (y * z + w * x);
	r.m[2][0] = 2 * (x * z + w * y); r.m[2][1] = 2 * (y * z - w * x); r.m[2][2] = 1 - 2 * (x * x + y * y);
	return r;
}
inline double ddet3(const DM& a)
{
	return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[2][1] * a.m[1][2]) - a.m[1][0] * (a.m[0][1] * a.m[2][2] - a.m[2][1] * a.m[0][2]) +
		a.m[2][0] * (a.m[0][1] * a.m[1][2] - a.m[1][1] * a.m[0][2]);
}
// Inverse by Gauss-Jordan with full row pivoting on the leading n x n block. Returns false when singular.
inline bool dinv(const DM& a, int n, DM& out)
{
	double t[4][8]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { t[i][j] = a.m[j][i]; t[i][n + j] = i == j; }
	for (int c = 0; c < n; c++)
	{
		int p = c; for (int i = c + 1; i < n; i++) if (std::fabs(t[i][c]) > std::fabs(t[p][c])) p = i;
		if (std::fabs(t[p][c]) < 1e-300) return false;
		for (int j = 0; j < 2 * n; j++) std::swap(t[p][j], t[c][j]);
		double k = t[c][c]; for (int j = 0; j < 2 * n; j++) t[c][j] /= k;
		for (int i = 0; i < n; i++) if (i != c) { double f = t[i][c]; for (int j = 0; j < 2 * n; j++) t[i][j] -= f * t[c][j]; }
	}
	out = dident(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) out.m[j][i] = t[i][n + j];
	return true;
}

// --- structured generators
// Unit direction: axes, diagonals, or uniform.
inline D3 dir(Src& s, const char* n)
{
	D3 r;
	switch (s.draw(3))
	{
	case 0: { r = { 0, 0, 0 }; int a = (int)s.draw(2); r[a] = s.draw(1) ? -1 : 1; break; }
	case 1: { do { for (auto& v : r) v = (double)s.irange(-1, 1); if (dlen(r) == 0) r[s.draw(2)] = 1; } while (dlen(r) == 0); break; }
	default: { double z = s.uni(-1, 1), p = s.uni(0, 6.283185307179586), q = std::sqrt(std::max(0.0, 1 - z * z)); r = { q * std::cos(p), q * std::sin(p), z }; }
	}
	r = dnorm(r); saw(s, n, r); return r;
}
inline double angle(Src& s, const char* n, double lim = 3.14159)
{
	double a;
	switch (s.draw(3))
	{
	case 0: a = (double)s.irange(-4, 4) * 0.7853981633974483; break;
	case 1: a = s.uni(-0.01, 0.01); break;
	default: a = s.uni(-lim, lim);
	}
	if (a > lim) a = lim; if (a < -lim) a = -lim;
	s.say(n, a); return a;
}
inline D4 daxis(D3 ax, double a) { double h = std::sin(a / 2); return { ax[0] * h, ax[1] * h, ax[2] * h, std::cos(a / 2) }; }
inline D4 rotq(Src& s, const char* n)
{
	if (s.chance(1, 12)) { D4 q = { s.draw(1) ? 0.5 : -0.5, s.draw(1) ? 0.5 : -0.5, s.draw(1) ? 0.5 : -0.5, s.draw(1) ? 0.5 : -0.5 }; saw(s, n, q); return q; } D3 ax = dir(s, n); double a = angle(s, "angle"); return daxis(ax, a);
}
} // namespace pbt
