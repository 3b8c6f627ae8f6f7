// Points, triangles and boxes shared by the geometry harnesses, with double references.
#pragma once
#include "xform.hpp"
#include "math/line.hpp"
#include "math/triangle.hpp"
#include "math/ray.hpp"
#include "math/plane.hpp"
namespace pbt
{
// The unit of length of a case: a power of two, so that lattice cases stay exact; laws draw it first.
inline double U = 1;
inline double drawUnit(Src& s, int far = 15) { U = s.chance(1, 2) ? std::exp2((double)s.irange(-far, far)) : 1; s.say("unit", U); return U; }
// A point: on the integer lattice (exact arithmetic, degenerate positions), or anywhere.
inline D3 point(Src& s, const char* n, double r = 10)
{
	D3 p; if (s.chance(1, 2)) for (auto& v : p) v = (double)s.irange(-6, 6); else for (auto& v : p) v = (double)(float)s.uni(-r, r); if (s.chance(1, 8)) for (auto& v : p) if (v == 0) v = -0.0; p = p * U; saw(s, n, p); return p;
}
inline math::f32x4 P(Src& s, D3 p) { float w = junk(s); return simd(p, s.chance(1, 8) ? (float)p[s.draw(2)] : w); } // with anything in the unused lane
struct Tri { D3 a, b, c; D3 n() const { return dcross(b - a, c - a); } double size() const { return std::max(dlen(b - a), std::max(dlen(c - b), dlen(a - c))); } double thin() const { double k = std::max(1.0, 0.1 * size() * size() / dlen(n())); return k * k; } }; // thin: how much rounding grows
// A triangle whose height is at least a tenth of its longest edge, at times a fiftieth.
inline Tri triangle(Src& s, Case& c, double r = 10)
{
	Tri t; if (s.chance(1, 3)) { t.a = fl(point(s, "A", r)); D3 o = fl(point(s, "o", r)); t.b = t.a + fl(point(s, "AB", r)) * 0.25; t.c = t.a + o * 0.25; t.b = fl(t.b); t.c = fl(t.c); } else { t.a = point(s, "A", r); t.b = point(s, "B", r); t.c = point(s, "C", r); }
	if (s.chance(1, 6)) { double k = s.uni(0.02, 0.3); t.c = fl(t.a + (t.b - t.a) * s.uni(-0.5, 1.5) + (t.c - t.a) * k); } c.assume(t.size() > 0.25 * U && dlen(t.n()) > 0.02 * t.size() * t.size()); saw(s, "a", t.a); saw(s, "b", t.b); saw(s, "c", t.c); return t;
}
inline math::Triangle lib(Src& s, const Tri& t) { math::f32x4 a = P(s, t.a), b = P(s, t.b), c = P(s, t.c); return math::Triangle(a, b, c); }
inline D3 closestSeg(D3 a, D3 b, D3 p) { D3 d = b - a; double t = ddot(p - a, d) / ddot(d, d); return a + d * std::min(1.0, std::max(0.0, t)); }
// Barycentric coordinates of the projection of p (weights of a, b, c).
inline D3 bary(const Tri& t, D3 p) { D3 n = t.n(); double k = 1 / ddot(n, n); D3 r = { ddot(dcross(t.c - t.b, p - t.b), n) * k, ddot(dcross(t.a - t.c, p - t.c), n) * k, 0 }; r[2] = 1 - r[0] - r[1]; return r; }
inline D3 closestTri(const Tri& t, D3 p)
{
	D3 w = bary(t, p); if (w[0] >= 0 && w[1] >= 0 && w[2] >= 0) return t.a * w[0] + t.b * w[1] + t.c * w[2];
	D3 best{}; double d = 1e300; for (auto e : { closestSeg(t.a, t.b, p), closestSeg(t.b, t.c, p), closestSeg(t.c, t.a, p) }) if (dlen(p - e) < d) { d = dlen(p - e); best = e; } return best;
}
} // namespace pbt
#include "math/aabb.hpp"
#include "math/sphere.hpp"
namespace pbt
{
struct Box { D3 lo, hi; };
inline Box box(Src& s, const char* n, double r = 10)
{
	Box b; bool lattice = s.chance(1, 2); for (int i = 0; i < 3; i++) { double p = lattice ? (double)s.irange(-6, 6) : (double)(float)s.uni(-r, r), e = lattice ? (double)s.range(0, 6) : s.chance(1, 8) ? 0 : s.uni(0, r); b.lo[i] = p * U; b.hi[i] = (float)(p + e) * U; }
	if (s.verbose) { saw(s, (std::string(n) + ".min").c_str(), b.lo); saw(s, (std::string(n) + ".max").c_str(), b.hi); } return b;
}
// The unused lanes hold anything; the constructor itself must not look at them.
inline math::Aabb lib(Src& s, const Box& b) { math::f32x4 lo = P(s, b.lo), hi = P(s, b.hi); return math::Aabb(lo, hi); }
inline bool lattice(const D3& p) { for (double v : p) if (v * 4 != std::floor(v * 4) || std::fabs(v) > 1000) return false; return true; }
} // namespace pbt
