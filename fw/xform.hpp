// Rotations, translations and scales as doubles and as library values, shared by the transform and quaternion harnesses.
#pragma once
#include "math.hpp"
#include "math/matrix.hpp"
#include "math/matrix/transform.hpp"
namespace pbt
{
inline math::quat Q(const D4& q) { return math::quat((float)q[0], (float)q[1], (float)q[2], (float)q[3]); }
inline D4 dq(const math::quat& q) { F4 a = arr(q); return { a[0], a[1], a[2], a[3] }; }
inline D4 d4(const math::f32x4& v) { F4 a = arr(v); return { a[0], a[1], a[2], a[3] }; }
inline math::f32x4 V4(const D4& v) { return math::f32x4((float)v[0], (float)v[1], (float)v[2], (float)v[3]); }
inline math::f32x4x4 fm(const DM& a) { return math::f32x4x4(V4({ a.m[0][0], a.m[0][1], a.m[0][2], a.m[0][3] }), V4({ a.m[1][0], a.m[1][1], a.m[1][2], a.m[1][3] }), V4({ a.m[2][0], a.m[2][1], a.m[2][2], a.m[2][3] }), V4({ a.m[3][0], a.m[3][1], a.m[3][2], a.m[3][3] })); }
inline DM dm(const math::f32x4x4& m) { DM r; F4 k[4] = { arr(m.c0), arr(m.c1), arr(m.c2), arr(m.c3) }; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = k[i][j]; return r; }
inline DM fl(DM a) { for (auto& k : a.m) for (auto& v : k) v = (float)v; return a; } // rounded to float, as the library sees it
inline D4 fl(D4 a) { for (auto& v : a) v = (float)v; return a; }
inline D3 fl(D3 a) { for (auto& v : a) v = (float)v; return a; }
inline DM dtrans(D3 t) { DM r = dident(); for (int i = 0; i < 3; i++) r.m[3][i] = t[i]; return r; }
inline DM dscale(D3 t) { DM r = dident(); for (int i = 0; i < 3; i++) r.m[i][i] = t[i]; return r; }
inline double dmax(const DM& a) { double r = 0; for (auto& k : a.m) for (auto v : k) r = std::max(r, std::fabs(v)); return r; }
inline void matNear(Case& c, const DM& got, const DM& want, double tol, const char* what, int nr = 4, int nc = 4)
{
	for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++) if (double e = std::fabs(got.m[i][j] - want.m[i][j]); e <= tol) c.ratio(e, tol, what); else c.near(got.m[i][j], want.m[i][j], tol, fmt("%s, column %d row %d", what, i, j).c_str());
}
inline void vecNear(Case& c, const D3& got, const D3& want, double tol, const char* what)
{
	for (int i = 0; i < 3; i++) if (double e = std::fabs(got[i] - want[i]); e <= tol) c.ratio(e, tol, what); else c.near(got[i], want[i], tol, fmt("%s, component %d", what, i).c_str());
}
// The same rotation: equal up to sign.
inline void quatNear(Case& c, D4 g, D4 w, double tol, const char* what)
{
	double d = 0; for (int i = 0; i < 4; i++) d += g[i] * w[i]; if (d < 0) for (auto& v : w) v = -v;
	for (int i = 0; i < 4; i++) if (double e = std::fabs(g[i] - w[i]); e <= tol) c.ratio(e, tol, what); else c.near(g[i], w[i], tol, fmt("%s, component %d", what, i).c_str());
}
inline D4 qmul(D4 a, D4 b) // Hamilton product
{
	return { a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
		a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2] };
}
inline D4 qunit(D4 q) { double l = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); for (auto& v : q) v /= l; return q; }
// Unit quaternion: axis and angle (special ones included), or uniform in the four coordinates.
inline D4 anyRot(Src& s, const char* n)
{
	D4 q; if (s.chance(1, 3)) { do { for (auto& v : q) v = s.chance(1, 5) ? 0 : s.uni(-1, 1); } while (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] < 0.01 && (q[3] = 1)); q = qunit(q); }
	else q = rotq(s, n);
	q = fl(q); saw(s, n, q); return q;
}
inline bool generalRot(const D4& q) { int z = 0; for (auto v : q) z += std::fabs(v) < 1e-3; return z == 0; }
inline D3 vec3(Src& s, const char* n, double r) { D3 v; for (auto& k : v) k = s.chance(1, 3) ? (double)s.irange(-3, 3) : (double)(float)s.uni(-r, r); saw(s, n, v); return v; }
// The same vector, at times far longer or shorter.
inline D3 scaled(Src& s, const char* n, D3 v) { if (s.chance(1, 4)) { double k = std::exp2(s.uni(-20, 20)); for (auto& x : v) x = (float)(x * k); saw(s, n, v); } return v; }
inline D3 posScale(Src& s, const char* n)
{
	D3 v; int k = (int)s.draw(4); double u = std::exp2(s.uni(-3, 3)), far = k == 4 ? 10 : 3; for (auto& x : v) x = (float)(k == 0 ? 1.0 : k == 1 ? u : k == 2 ? (double)s.range(1, 5) : std::exp2(s.uni(-far, far))); saw(s, n, v); return v;
}
// Scales that mirror too, those of exactly plus and minus one among them.
inline D3 anyScale(Src& s, const char* n)
{
	D3 v = posScale(s, n); if (s.chance(1, 3)) { for (auto& x : v) if (s.draw(1)) x = -x; saw(s, "signed scale", v); } return v;
}
inline DM affine(Src& s, const char* n)
{
	DM a = dident(); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) a.m[i][j] = s.chance(1, 2) ? (double)s.irange(-4, 4) : (double)(float)s.uni(-4, 4);
	if (s.verbose) { std::string t = std::string(n) + "=columns"; for (auto& k : a.m) { t += "("; for (int j = 0; j < 3; j++) t += fmt(j ? ",%.9g" : "%.9g", k[j]); t += ")"; } s.say(t); }
	return a;
}
inline D4 pt(D3 p) { return { p[0], p[1], p[2], 1 }; }
inline D3 xyz(D4 v) { return { v[0], v[1], v[2] }; }
} // namespace pbt
