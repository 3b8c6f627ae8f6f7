// G05: ray against box, with interval arithmetic over the rounding of each slab: only decided cases are judged.
#include "geom.hpp"
using namespace pbt; using namespace math;
struct Slab { double enLo = -INFINITY, enHi = -INFINITY, exLo = INFINITY, exHi = INFINITY; bool par = false, outside = false, apart = true; };
// apart: the ray enters every slab clearly before it leaves any other one (one and the same slab may have no thickness)
static Slab slabs(const Box& b, D3 o, D3 d, double extra)
{
	Slab r; double en[3], ex[3]; bool par[3]; for (int i = 0; i < 3; i++)
	{
		par[i] = d[i] == 0; if (par[i]) { r.par = true; if (o[i] < b.lo[i] || o[i] > b.hi[i]) r.outside = true; continue; }
		double t1 = (b.lo[i] - o[i]) / d[i], t2 = (b.hi[i] - o[i]) / d[i], e1 = std::fabs(t1) * extra, e2 = std::fabs(t2) * extra; if (t1 > t2) { std::swap(t1, t2); std::swap(e1, e2); }
		r.enLo = std::max(r.enLo, t1 - e1); r.enHi = std::max(r.enHi, t1 + e1); r.exLo = std::min(r.exLo, t2 - e2); r.exHi = std::min(r.exHi, t2 + e2); en[i] = t1 + e1; ex[i] = t2 - e2;
	}
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && !par[i] && !par[j] && en[i] >= ex[j]) r.apart = false;
	return r;
}
LAW(ray_and_box, 8, "the ray hits the box, or is parallel to an axis")
{
	drawUnit(s, 40); Box b = box(s, "box"); D3 o = point(s, "origin"), d; int kind = (int)s.draw(5); if (s.chance(1, 6)) { int i = (int)s.draw(2); b.hi[i] = b.lo[i]; c.cls("flat box"); }
	if (kind == 0) { d = { 0, 0, 0 }; d[s.draw(2)] = s.draw(1) ? -1 : 1; } else if (kind == 1) { d = dir(s, "d"); d[s.draw(2)] = 0; if (dlen(d) < 0.1) d = { 0, 0.6, 0.8 }; } else if (kind == 2) d = dir(s, "d");
	else { D3 t; for (int i = 0; i < 3; i++) t[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * s.u01(); d = (t - o) * (1 / U); if (kind == 4) d = d * -1; if (dlen(d) < 1e-3) d = { 1, 0, 0 }; if (s.draw(1)) d[s.draw(2)] = 0; if (dlen(d) < 1e-3) d = { 0, 1, 0 }; }
	if (s.chance(1, 4)) { int i = (int)s.draw(2); o[i] = (float)(b.lo[i] + (b.hi[i] - b.lo[i]) * s.pick({ 0.0, 1.0, 0.5, 0.25 })); }
	for (auto& v : d) { v = (float)v; if (std::fabs(v) < 1e-4) v = 0; } if (dlen(d) == 0) d[0] = 1; for (int i = 0; i < 3; i++) if (d[i] == 0 && s.draw(1)) o[i] = (float)(b.lo[i] + (b.hi[i] - b.lo[i]) * s.pick({ 0.5, 0.0, 1.0, 0.3 })); if (s.chance(1, 4)) for (auto& v : d) if (v == 0) v = -0.0; saw(s, "origin'", o); saw(s, "direction", d);
	bool norm = s.draw(1), viaSet = s.draw(1); float w1 = junk(s), w2 = junk(s); f32x4 fo = simd(o, w1), fd = simd(d, w2); Ray r; if (viaSet) { r.origin = fo; r.setDirection(fd, norm); } else r = Ray(fo, fd, norm); Aabb a = lib(s, b); d = d3(r.getDirection()); // the direction as the ray holds it
	Slab t = slabs(b, o, d, 1e-6); bool miss = t.outside || t.enLo > t.exHi || t.exHi < 0, hit = !t.outside && t.apart && t.exLo >= 0 && t.enHi < 1e30; c.trivialIf(miss && !t.par); c.cls(hit ? (t.enLo < 0 ? "hit from inside" : t.par ? "parallel hit" : "hit") : miss ? (t.par ? "parallel miss" : t.exHi < 0 ? "behind" : "miss") : "undecided");
	// every way to ask: the plain ray, and a ray holding the reciprocal direction
	D3 inv; for (int i = 0; i < 3; i++) inv[i] = 1.0f / (float)d[i]; Ray q; float w3 = junk(s); if (s.draw(1)) q = Ray(fo, f32x4((float)inv[0], (float)inv[1], (float)inv[2], w3), false); else { q.origin = fo; q.setDirection(f32x4((float)inv[0], (float)inv[1], (float)inv[2], w3), false); }
	auto judge = [&](const char* what, bool h, float en, float ex, bool two)
	{
		if (hit) { c.check(h, "%s reports no hit", what); c.check(en >= t.enLo - 1e-30 && en <= t.enHi + 1e-30, "%s: entry at %.9g, expected %.9g..%.9g", what, en, t.enLo, t.enHi); if (two) c.check(ex >= t.exLo && ex <= t.exHi, "%s: exit at %.9g, expected %.9g..%.9g", what, ex, t.exLo, t.exHi); }
		if (miss) { c.check(!h, "%s reports a hit", what); c.check(en == FLT_MAX && (!two || ex == -FLT_MAX), "%s: distances of a miss are %.9g, %.9g", what, en, ex); }
	};
	float2 g = raycast2(a, r), gi = raycast2I(a, q); float e = raycast1(a, r), ei = raycast1I(a, q); judge("raycast2", isAabbIntersected(g), g.x, g.y, true); judge("raycast2I", isAabbIntersected(gi), gi.x, gi.y, true); judge("raycast1", e != FLT_MAX, e, 0, false); judge("raycast1I", ei != FLT_MAX, ei, 0, false);
	if (hit || miss) c.check(raycast(a, r) == hit && raycastI(a, q) == hit, "raycast or raycastI is %d", !hit);
	// the reported points are on the box
	if (hit && std::fabs(t.enLo) < 1e3 * U) { D3 p = o + d * (double)g.x; for (int i = 0; i < 3; i++) c.check(p[i] > b.lo[i] - 1e-3 * U && p[i] < b.hi[i] + 1e-3 * U, "the entry point is not on the box"); }
	for (int i = 0; i < 3; i++) c.check((arr(r.getParallel())[i] != 0) == (d[i] == 0), "getParallel of axis %d is wrong", i);
}
// The test of two distances, of any size.
LAW(distances, 1, "the entry is before the exit and not both are in front")
{
	float x = s.anyFloat(), y = s.chance(1, 4) ? x * (float)s.uni(0.5, 2) : s.chance(1, 6) ? x : s.anyFloat(); c.assume(y == y); s.say("entry", x); s.say("exit", y); bool hit = x <= y && y >= 0; c.trivialIf(x > y || x >= 0); c.check(isAabbIntersected(float2(x, y)) == hit, "isAabbIntersected(%.9g, %.9g) is %d", x, y, !hit);
}
// A scaled ray starts at the scaled origin and runs in the scaled direction; comparison is of the whole value.
LAW(ray_values, 1, "the scale is not uniform")
{
	drawUnit(s, 40); D3 o = point(s, "origin"), d = dir(s, "direction"), k; for (auto& v : k) v = (float)(s.uni(0.25, 4) * (s.draw(3) ? 1 : -1)); if (s.chance(1, 4)) k[s.draw(2)] = k[s.draw(2)]; if (s.chance(1, 8)) k[0] = k[1] = k[2]; if (s.chance(1, 6)) k[s.draw(2)] = s.pick({ 1.0, -1.0, 0.5, 2.0 }); saw(s, "factor", k); o = fl(o); d = fl(d); c.trivialIf(k[0] == k[1] || k[1] == k[2]); f32x4 f = P(s, k); Ray r(simd(o, junk(s)), simd(d, 0.0f), s.draw(1));
	auto is = [&](const Ray& g, D3 wo, D3 wd, const char* what) { D3 go = d3(g.origin), gd = d3(g.getDirection()); for (int i = 0; i < 3; i++) c.near(go[i], wo[i], std::fabs(wo[i]) * 2e-7 + 1e-30, what); gd = dnorm(gd); wd = dnorm(wd); for (int i = 0; i < 3; i++) c.near(gd[i], wd[i], 2e-6, what); };
	D3 m, q; for (int i = 0; i < 3; i++) m[i] = o[i] * k[i], q[i] = o[i] / k[i]; D3 dm, dq; for (int i = 0; i < 3; i++) dm[i] = d[i] * k[i], dq[i] = d[i] / k[i];
	is(r * f, m, dm, "ray * factor"); is(r / f, q, dq, "ray / factor"); Ray t = r; Ray& tr = (t *= f); is(t, m, dm, "ray *= factor"); c.check(&tr == &t, "*= does not return its operand"); t = r; t /= f; is(t, q, dq, "ray /= factor");
	t = r; c.check(t == r && !(t != r), "a copy differs"); t.origin.setX(t.origin.getX() + 8.0f * (float)U); c.check(t != r && !(t == r), "a different origin compares equal"); t = r; t.setDirection(-r.getDirection(), false); c.check(t != r && !(t == r), "a different direction compares equal");
	// factors of zero along an axis or two
	D3 z = k; z[s.draw(2)] = 0; if (s.draw(1)) z[s.draw(2)] = 0; D3 zo, zd; for (int i = 0; i < 3; i++) zo[i] = o[i] * z[i], zd[i] = d[i] * z[i]; saw(s, "factor with zeros", z); if (dlen(zd) > 0.05) { f32x4 fz = P(s, z); is(r * fz, zo, zd, "ray * factor with zeros"); t = r; t *= fz; is(t, zo, zd, "ray *= factor with zeros"); }
	// a shift moves the origin; the unit length of the direction is the default, in the constructor and in the setter
	D3 v; for (auto& x : v) x = (float)(s.uni(-4, 4) * U); if (s.chance(1, 4)) v[s.draw(2)] = v[s.draw(2)]; if (s.chance(1, 8)) v[s.draw(2)] = 0; if (s.chance(1, 6)) v[s.draw(2)] = s.pick({ 1.0, -1.0 }); saw(s, "shift", v); f32x4 fv = P(s, v); auto from = [&](const Ray& g, double sg, const char* what) { D3 go = d3(g.origin); for (int i = 0; i < 3; i++) c.eqf(go[i], (float)((float)o[i] + sg * (float)v[i]), what); };
	from(r + fv, 1, "origin of ray + shift"); from(r - fv, -1, "origin of ray - shift"); t = r; Ray& ta = (t += fv); from(t, 1, "origin of ray += shift"); c.check(&ta == &t, "+= does not return its operand"); t = r; Ray& ts = (t -= fv); from(t, -1, "origin of ray -= shift"); c.check(&ts == &t, "-= does not return its operand");
	double k0 = s.uni(0.1, 9); D3 dl = fl(d * k0); t = Ray(simd(o), simd(dl, 0.0f)); is(t, o, dl, "default ray"); c.near(dlen(d3(t.getDirection())), 1, 1e-6, "length of the direction of a default ray"); t = Ray(); t.setDirection(simd(dl, 0.0f)); c.near(dlen(d3(t.getDirection())), 1, 1e-6, "length of the direction set by default"); is(t, { 0, 0, 0 }, dl, "direction set by default");
	t = Ray(simd(o), simd(dm), false); is(t, o, dm, "unnormalised"); for (int i = 0; i < 3; i++) c.eqf(d3(t.getDirection())[i], (float)dm[i], "the direction is kept"); t.normalize(); c.near(dlen(d3(t.getDirection())), 1, 1e-6, "length after normalize"); is(t, o, dm, "normalize"); Ray e; c.check(d3(e.origin) == D3{ 0, 0, 0 } && d3(e.getDirection()) == D3{ 0, 0, 0 }, "the empty ray");
	struct { const Ray& r; D3 d; } axes[] = { { Ray::left, { -1, 0, 0 } }, { Ray::right, { 1, 0, 0 } }, { Ray::bottom, { 0, -1, 0 } }, { Ray::top, { 0, 1, 0 } }, { Ray::back, { 0, 0, -1 } }, { Ray::front, { 0, 0, 1 } } }; for (auto& a : axes) { c.check(d3(a.r.getDirection()) == a.d && d3(a.r.origin) == D3{ 0, 0, 0 }, "a constant ray"); for (int i = 0; i < 3; i++) c.check((arr(a.r.getParallel())[i] != 0) == (a.d[i] == 0), "getParallel of a constant ray"); }
}
PBT_MAIN()
