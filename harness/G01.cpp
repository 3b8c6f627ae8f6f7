// G01: planes.
#include "geom.hpp"
using namespace pbt; using namespace math;
LAW(plane_and_point, 5, "general normal and a plane off the origin")
{
	drawUnit(s, 40); D3 n = fl(dir(s, "normal")); double d = s.chance(1, 3) ? (double)s.irange(-5, 5) * U : (float)s.uni(-20, 20) * U; s.say("distance", d); D3 p = point(s, "p"), q = point(s, "q"); c.trivialIf(n[0] * n[1] * n[2] == 0 || d == 0); double tol = (dlen(p) + std::fabs(d) + U) * 1e-6;
	double len = s.chance(1, 3) ? 1 : std::exp2(s.uni(-5, 5)); s.say("normal length", len); D3 nl = fl(n * len); Plane a(P(s, n), (float)d, false), b(P(s, nl), (float)d), z; f32x4 x = P(s, p); D3 u = dnorm(nl);
	vecNear(c, d3(a.getNormal()), n, 0, "getNormal"); c.near(a.getDistance(), d, 0, "getDistance"); vecNear(c, d3(b.getNormal()), u, 4e-7, "normalised normal"); c.near(b.getDistance(), d, 0, "getDistance after normalisation of the normal");
	Plane zero(P(s, nl)); c.near(zero.getDistance(), 0, 0, "distance by default"); vecNear(c, d3(zero.getNormal()), u, 4e-7, "normalised by default"); c.near(distance3(a, x), ddot(n, p) + d, tol, "distance3"); c.near(distance3(b, x), ddot(u, p) + d, tol, "distance3 of a normalised plane");
	D3 k = d3(closestPoint(b, x)), want = p - u * (ddot(u, p) + d); vecNear(c, k, want, tol * 2, "closestPoint"); c.near(ddot(u, k) + d, 0, tol * 3, "the closest point is on the plane"); D3 on = q - u * (ddot(u, q) + d); c.check(dlen(p - k) <= dlen(p - on) + tol * 3, "another point of the plane is closer");
	vecNear(c, d3(closestPoint(b, simd(fl(on), junk(s)))), on, tol * 3 + dlen(on) * 1e-6, "a point of the plane is its own closest point");
	// editing
	z = a; float w = junk(s); z.setNormal(simd(nl, w)); vecNear(c, d3(z.getNormal()), u, 4e-7, "setNormal"); c.near(z.getDistance(), d, 0, "setNormal must keep the distance"); z.setNormal(simd(nl, w), false); vecNear(c, d3(z.getNormal()), nl, 0, "setNormal without normalisation"); z.setDistance((float)(d + U)); c.near(z.getDistance(), (float)(d + U), 0, "setDistance"); vecNear(c, d3(z.getNormal()), nl, 0, "setDistance must keep the normal");
	Plane y = z; c.check(y == z && !(y != z), "a copy differs"); y.setDistance((float)(d + 2 * U)); c.check(y != z && !(y == z), "another distance is equal");
	// normalising keeps the set of points of the plane: the same zero set, distances divided by the length
	Plane m(simd(nl, w), (float)(d * len), false); Plane two[2] = { m, m }; m.normalize(); vecNear(c, d3(m.getNormal()), u, 6e-7, "normalize: normal"); c.near(m.getDistance(), (float)(d * len) / dlen(nl), std::fabs(d) * 6e-7, "normalize: distance"); normalizePlanes(two, 1); vecNear(c, d3(two[0].getNormal()), u, 6e-7, "normalizePlanes: normal"); c.near(two[0].getDistance(), m.getDistance(), std::fabs(d) * 6e-7, "normalizePlanes: distance"); c.check(two[1] == Plane(simd(nl, w), (float)(d * len), false), "normalizePlanes changed a plane after the last");
}
LAW(many_planes, 1, "at least two planes")
{
	drawUnit(s, 40); int n = (int)s.draw(s.chance(1, 10) ? 300 : 12), pad = 3; c.trivialIf(n < 2); std::vector<Plane> v, want; for (int i = 0; i < n + pad; i++) { D3 q = fl(dir(s, "normal") * std::exp2(s.uni(-5, 5))); v.emplace_back(P(s, q), (float)(s.uni(-20, 20) * U), false); } want = v; for (int i = 0; i < n; i++) want[i].normalize();
	normalizePlanes(v.data(), n); for (int i = 0; i < n + pad; i++) c.check(i < n || v[i] == want[i], "plane %d after %d planes has changed", i, n);
	for (int i = 0; i < n; i++) { vecNear(c, d3(v[i].getNormal()), d3(want[i].getNormal()), 6e-7, "normal of one of many planes"); c.near(v[i].getDistance(), want[i].getDistance(), std::fabs(want[i].getDistance()) * 6e-7, "distance of one of many planes"); }
}
LAW(plane_of_triangle, 4, "the plane misses the origin")
{
	drawUnit(s); Tri t = triangle(s, c); Triangle k = lib(s, t); Plane a(k); D3 u = dnorm(t.n()); double sz = t.size() + dlen(t.a), tol = sz * 1.5e-6 * t.thin(); c.trivialIf(std::fabs(ddot(u, t.a)) < 0.1 * U);
	vecNear(c, d3(a.getNormal()), u, 1e-5 * t.thin(), "normal of the triangle's plane"); for (auto v : { t.a, t.b, t.c }) { c.near(distance3(a, P(s, v)), 0, tol * 3, "distance of a vertex from the triangle's plane"); vecNear(c, d3(closestPoint(a, P(s, v))), v, tol * 3, "a vertex is its own closest point"); }
	D3 p = point(s, "p"); double pt = (sz + dlen(p)) * 4e-6 * t.thin(); c.near(distance3(a, P(s, p)), ddot(u, p - t.a), pt, "signed distance from the triangle's plane"); vecNear(c, d3(closestPoint(a, P(s, p))), p - u * ddot(u, p - t.a), pt * 2, "closest point on the triangle's plane");
	Tri r = { t.a, t.c, t.b }; c.near(distance3(Plane(lib(s, r)), P(s, p)), -ddot(u, p - t.a), pt, "reversed triangle");
}
LAW(plane_of_a_degenerate_triangle, 1, "two different vertices")
{
	// a triangle without area has no plane of its own, but a plane built from it still contains its vertices (and no NaN)
	drawUnit(s, 40); D3 a = fl(point(s, "a")), b = fl(point(s, "b")); int k = (int)s.draw(3); c.trivialIf(k == 3); if (k == 3) b = a; D3 v[3] = { k == 2 ? b : a, k == 1 ? b : a, k == 0 ? b : a }; Triangle t(P(s, v[0]), P(s, v[1]), P(s, v[2])); Plane p(t);
	c.cls(k == 3 ? "one point" : "two points"); if (k != 2) for (auto& x : v) c.near(distance3(p, P(s, x)), 0, (dlen(a) + dlen(b)) * 3e-6, "distance of a vertex of a degenerate triangle"); for (auto x : d3(p.getNormal())) c.check(std::isfinite(x) && std::fabs(x) <= 1.000001, "normal component %g", x);
}
LAW(named_planes, 1, "the point is off all three axes")
{
	drawUnit(s, 40); D3 p = point(s, "p"); f32x4 x = P(s, p); c.trivialIf(p[0] * p[1] * p[2] == 0); c.eqf(distance3(Plane::left, x), -(float)p[0], "left"); c.eqf(distance3(Plane::right, x), (float)p[0], "right"); c.eqf(distance3(Plane::bottom, x), -(float)p[1], "bottom"); c.eqf(distance3(Plane::top, x), (float)p[1], "top"); c.eqf(distance3(Plane::back, x), -(float)p[2], "back"); c.eqf(distance3(Plane::front, x), (float)p[2], "front"); c.eqf(distance3(Plane(), x), 0, "empty plane");
}
PBT_MAIN()
