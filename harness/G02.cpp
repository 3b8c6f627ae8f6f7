// G02: closest point on segments, rays and triangles, against double geometry; optimality against other points of the set.
#include "geom.hpp"
using namespace pbt; using namespace math;
LAW(segment, 4, "the closest point is inside the segment")
{
	drawUnit(s, 40); D3 a = point(s, "a"), b = point(s, "b"), p = point(s, "p"); if (s.chance(1, 4)) { double t = s.pick({ 0.0, 1.0, 0.5, -1.0, 2.0, 0.25 }); p = fl(a + (b - a) * t); saw(s, "p on the line", p); } c.assume(dlen(b - a) > 0.5 * U); double t = ddot(p - a, b - a) / ddot(b - a, b - a); c.trivialIf(t <= 0 || t >= 1); c.cls(t <= 0 ? "before the start" : t >= 1 ? "after the end" : "inside");
	f32x4 x = P(s, p); Line l(P(s, a), P(s, b)); double sz = dlen(a) + dlen(b) + dlen(p), tol = sz * 2e-6; D3 want = closestSeg(a, b, p), g = d3(closestPoint(l, x)); vecNear(c, g, want, tol, "closestPoint(line, p)"); float ft = -77; D3 h = d3(closestPoint(l, x, ft)); vecNear(c, h, want, tol, "closestPoint(line, p, t)"); c.near(ft, t, (sz + std::fabs(t) * dlen(b - a)) * 4e-6 / dlen(b - a), "t");
	double k = s.u01(); D3 o = a + (b - a) * k; c.check(dlen(p - g) <= dlen(p - o) + tol * 2, "another point of the segment is closer"); if (t < -1e-3) vecNear(c, g, a, 0, "before the start"); if (t > 1.001) vecNear(c, g, b, tol, "after the end");
	vecNear(c, d3(l.getDirection()), dnorm(b - a), 1e-6, "getDirection"); vecNear(c, d3(l.getDirection(false)), b - a, dmaxabs(b - a) * 1e-7, "getDirection without normalisation");
	// operators act on both ends
	D3 v = point(s, "v"); for (auto& q : v) if (q == 0) q = 2; f32x4 w = P(s, v); auto ends = [&](const Line& m, D3 e0, D3 e1, const char* what) { vecNear(c, d3(m.start), e0, dmaxabs(e0) * 2e-7, what); vecNear(c, d3(m.end), e1, dmaxabs(e1) * 2e-7, what); }; auto mul = [](D3 q, D3 r) { return D3{ q[0] * r[0], q[1] * r[1], q[2] * r[2] }; }; auto div = [](D3 q, D3 r) { return D3{ q[0] / r[0], q[1] / r[1], q[2] / r[2] }; };
	ends(l + w, a + v, b + v, "+"); ends(l - w, a - v, b - v, "-"); ends(l * w, mul(a, v), mul(b, v), "*"); ends(l / w, div(a, v), div(b, v), "/"); Line m = l; ends(m += w, a + v, b + v, "+="); m = l; ends(m -= w, a - v, b - v, "-="); m = l; ends(m *= w, mul(a, v), mul(b, v), "*="); m = l; ends(m /= w, div(a, v), div(b, v), "/="); Line e = l; c.check(e == l && !(e != l), "a copy differs"); { D3 z = v; z[s.draw(2)] = 0; if (s.draw(1)) z[s.draw(2)] = 0; saw(s, "v with zeros", z); f32x4 fz = P(s, z); ends(l * fz, mul(a, z), mul(b, z), "* with zeros"); m = l; ends(m *= fz, mul(a, z), mul(b, z), "*= with zeros"); ends(l + fz, a + z, b + z, "+ with zeros"); ends(l - fz, a - z, b - z, "- with zeros"); m = l; m += fz; ends(m, a + z, b + z, "+= with zeros"); m = l; m -= fz; ends(m, a - z, b - z, "-= with zeros"); } e.end = e.end + (float)(1000 * std::max(1.0, U)); c.check(e != l && !(e == l), "another end is equal");
}
LAW(ray, 3, "the closest point is in front of the origin")
{
	drawUnit(s, 40); D3 o = point(s, "origin"), n = dir(s, "direction"), p = point(s, "p"); double len = s.chance(1, 2) ? 1 : std::exp2(s.uni(-2, 3)); s.say("length", len); D3 nl = fl(n * len); bool norm = s.draw(1) || len == 1; Ray r(P(s, o), P(s, nl), norm); D3 u = dnorm(nl); double t = ddot(p - o, u), tol = (dlen(o) + dlen(p) + U) * 2e-6; c.trivialIf(t <= 0); c.cls(t <= 0 ? "behind" : "in front");
	D3 want = o + u * std::max(0.0, t), g = d3(closestPoint(r, P(s, p))); vecNear(c, g, want, tol, "closestPoint(ray, p)"); double k = std::exp2(s.uni(-4, 4)) * U; c.check(dlen(p - g) <= dlen(p - (o + u * k)) + tol * 2, "another point of the ray is closer"); vecNear(c, d3(r.getDirection()), norm ? u : nl, dlen(nl) * 6e-7 + 6e-7, "getDirection"); vecNear(c, d3(r.origin), o, 0, "origin");
	Ray q = r; D3 m = dir(s, "new direction"); q.setDirection(simd(m, junk(s))); vecNear(c, d3(q.getDirection()), m, 6e-7, "setDirection"); q.setDirection(simd(m * len, junk(s)), false); vecNear(c, d3(q.getDirection()), m * len, len * 1e-6, "setDirection without normalisation"); q.normalize(); vecNear(c, d3(q.getDirection()), m, 1e-6, "normalize");
}
LAW(triangle_law, 6, "the closest point is inside the triangle or inside an edge")
{
	drawUnit(s); Tri t = triangle(s, c); D3 p; int kind = (int)s.draw(3); double sz = t.size();
	if (kind == 0) p = point(s, "p"); else { D3 w = { s.uni(-1.5, 2), s.uni(-1.5, 2), 0 }; if (kind == 2) w = { s.pick({ 0.0, 1.0, 0.5, -1.0, 2.0 }), s.pick({ 0.0, 1.0, 0.5, -0.5, 1.5 }), 0 }; w[2] = 1 - w[0] - w[1]; double h = s.chance(1, 3) ? 0 : s.uni(-2, 2); p = fl(t.a * w[0] + t.b * w[1] + t.c * w[2] + dnorm(t.n()) * (h * sz)); saw(s, "p", p); }
	D3 w = bary(t, p), want = closestTri(t, p); bool in = w[0] >= 0 && w[1] >= 0 && w[2] >= 0; int vert = 0; for (auto v : { t.a, t.b, t.c }) vert += dlen(want - v) < 1e-9 * U; c.cls(in ? "face" : vert ? "vertex" : "edge"); c.trivialIf(vert);
	double tol = (sz + dlen(t.a) + dlen(p)) * 1e-4 * t.thin(); Triangle k = lib(s, t); D3 g = d3(closestPoint(k, P(s, p))); c.near(dlen(p - g), dlen(p - want), tol * 0.1, "distance to closestPoint(triangle, p)"); vecNear(c, g, want, tol * 3, "closestPoint(triangle, p)"); D3 gw = bary(t, g); for (double v : gw) c.check(v > -1e-3 * t.thin() * (1 + dlen(p) / sz), "closestPoint(triangle, p) is outside the triangle");
	// the same point and another triangle
	Tri u = { t.b, t.c, fl(t.a + t.n() * ((s.draw(1) ? 0.5 : -0.25) / dlen(t.n()) * sz)) }; D3 wu = closestTri(u, p); double tu = (u.size() + dlen(u.a) + dlen(p)) * 1e-4 * u.thin(); if (dlen(u.n()) > 0.02 * u.size() * u.size()) c.near(dlen(p - d3(closestPoint(lib(s, u), P(s, p)))), dlen(p - wu), tu * 0.1, "distance to the closest point of another triangle");
}
PBT_MAIN()
