// G03: barycentric coordinates and point-in-triangle.
#include "geom.hpp"
using namespace pbt; using namespace math;
static void order(Src& s, Tri& t) { if (s.draw(1)) std::swap(t.a, t.b); if (s.draw(1)) std::swap(t.b, t.c); }
LAW(barycentric, 4, "the three weights differ and none is zero or one")
{
	drawUnit(s); Tri t = triangle(s, c); order(s, t); D3 w; if (s.chance(1, 10)) w = { s.uni(-300, 300), s.uni(-300, 300), 0 }; else if (s.draw(1)) w = { s.uni(-2, 3), s.uni(-2, 3), 0 }; else w = { s.pick({ 0.0, 1.0, 0.5, 0.25, -1.0, 2.0 }), s.pick({ 0.0, 1.0, 0.5, 0.25, -1.0 }), 0 }; w[2] = 1 - w[0] - w[1]; D3 p = fl(t.a * w[0] + t.b * w[1] + t.c * w[2]); w = bary(t, p); saw(s, "p", p); saw(s, "weights", w);
	c.trivialIf(std::fabs(w[0] - w[1]) < 1e-3 || std::fabs(w[0] * w[1] * w[2]) < 1e-6); D3 g = d3(calcBarycentric(lib(s, t), P(s, p))); double sz = t.size(), tol = 3e-4 * t.thin() * (1 + (dlen(t.a) + dlen(p)) / sz * 0.1 + 0.2 * std::max(0.0, dmaxabs(w) - 4)); vecNear(c, g, w, tol, "calcBarycentric"); c.near(g[0] + g[1] + g[2], 1, 1e-5 * t.thin() * t.thin() * (1 + 0.1 * dmaxabs(w)), "sum of the weights"); vecNear(c, t.a * g[0] + t.b * g[1] + t.c * g[2], p, tol * sz * 2, "point of the weights");
	// off the plane the weights are those of the projection
	double h = s.uni(-1, 1); D3 q = fl(p + dnorm(t.n()) * (h * sz)); vecNear(c, d3(calcBarycentric(lib(s, t), P(s, q))), bary(t, q), tol * 2, "calcBarycentric off the plane"); D3 va = d3(calcBarycentric(lib(s, t), P(s, t.b))); vecNear(c, va, { 0, 1, 0 }, tol * 0.03, "weights of the second vertex");
}
LAW(inside_exact, 5, "outside, or inside near an edge line")
{
	drawUnit(s); // Lattice triangle and a lattice point of its plane: everything is exact in float.
	Tri t; for (D3* v : { &t.a, &t.b, &t.c }) for (auto& x : *v) x = (double)s.irange(-5, 5) * U; c.assume(dlen(t.n()) > 0); saw(s, "a", t.a); saw(s, "b", t.b); saw(s, "c", t.c); int u = (int)s.irange(-4, 8), v = (int)s.irange(-4, 8); double den = s.pick({ 1.0, 2.0, 4.0 }); D3 p = t.a + (t.b - t.a) * (u / den) + (t.c - t.a) * (v / den); order(s, t); saw(s, "p", p); D3 w = bary(t, p); double m = std::min(w[0], std::min(w[1], w[2]));
	bool line = false; for (double x : w) line |= std::fabs(x) < 1e-12; c.cls(m < -1e-9 ? (line ? "outside, in line with an edge" : "outside") : m > 1e-9 ? "inside" : "on the border"); if (std::fabs(m) < 1e-9) m = 0; c.trivialIf(m > 0.3); c.eqi(Triangle::pointCount, 3, "pointCount");
	c.check(isInside(lib(s, t), P(s, p)) == (m >= 0), "isInside(triangle, point) is %d for a point %s", m < 0, m > 0 ? "inside" : m == 0 ? "on the border" : line ? "outside, in line with an edge" : "outside");
}
LAW(inside_general, 4, "outside, or inside near an edge line")
{
	drawUnit(s); Tri t = triangle(s, c); order(s, t); D3 w = { s.uni(-0.5, 1.5), s.uni(-0.5, 1.5), 0 }; if (s.chance(1, 3)) w[s.draw(1)] = s.uni(-0.02, 0.02); w[2] = 1 - w[0] - w[1]; D3 p = fl(t.a * w[0] + t.b * w[1] + t.c * w[2]); saw(s, "p", p); w = bary(t, p); double m = std::min(w[0], std::min(w[1], w[2])); c.assume(std::fabs(m) > 2e-3 * t.thin() && std::fabs(w[0]) > 2e-3 * t.thin() && std::fabs(w[1]) > 2e-3 * t.thin() && std::fabs(w[2]) > 2e-3 * t.thin()); c.cls(m > 0 ? "inside" : "outside"); c.trivialIf(m > 0.2);
	c.check(isInside(lib(s, t), P(s, p)) == (m > 0), "isInside(triangle, point) is wrong: smallest weight %g", m);
}
// One point and two triangles, asked in turn.
LAW(another_triangle, 2, "inside one triangle and outside the other")
{
	drawUnit(s); Tri t[2]; bool in[2]; D3 w = { s.uni(-0.5, 1.5), s.uni(-0.5, 1.5), 0 }; w[2] = 1 - w[0] - w[1]; t[0] = triangle(s, c); D3 p = fl(t[0].a * w[0] + t[0].b * w[1] + t[0].c * w[2]); D3 m = fl(t[0].a + (t[0].b - t[0].a) * s.uni(0.3, 0.7)); t[1] = t[0]; (s.draw(1) ? t[1].a : t[1].b) = m; if (s.draw(1)) order(s, t[1]); saw(s, "p", p); f32x4 x = P(s, p); Triangle k[2] = { lib(s, t[0]), lib(s, t[1]) };
	for (int i = 0; i < 2; i++) { D3 q = bary(t[i], p); double lo = std::min(std::fabs(q[0]), std::min(std::fabs(q[1]), std::fabs(q[2]))); c.assume(dlen(t[i].n()) > 0.02 * t[i].size() * t[i].size() && lo > 2e-3 * t[i].thin()); in[i] = q[0] > 0 && q[1] > 0 && q[2] > 0; } c.trivialIf(in[0] == in[1]);
	for (int i = 0; i < 3; i++) { int j = i % 2; c.check(isInside(k[j], x) == in[j], "isInside(%s triangle, point) is %d", j ? "other" : "first", !in[j]); }
	for (int i = 0; i < 3; i++) { int j = i % 2; vecNear(c, d3(calcBarycentric(k[j], x)), bary(t[j], p), 3e-4 * t[j].thin() * (1 + (dlen(t[j].a) + dlen(p)) / t[j].size() * 0.1) * 2, "calcBarycentric in turn"); }
}
LAW(operators, 1, "the vector has three different non-zero components")
{
	drawUnit(s, 40); Tri t = triangle(s, c); D3 v = point(s, "v"); for (auto& q : v) if (q == 0) q = 2; c.trivialIf(v[0] == v[1] || v[1] == v[2]); Triangle k = lib(s, t); f32x4 w = P(s, v); auto mul = [](D3 q, D3 r) { return D3{ q[0] * r[0], q[1] * r[1], q[2] * r[2] }; }; auto div = [](D3 q, D3 r) { return D3{ q[0] / r[0], q[1] / r[1], q[2] / r[2] }; };
	auto is = [&](const Triangle& g, D3 x, D3 y, D3 z, const char* what) { vecNear(c, d3(g.p0), x, dmaxabs(x) * 2e-7, what); vecNear(c, d3(g.p1), y, dmaxabs(y) * 2e-7, what); vecNear(c, d3(g.p2), z, dmaxabs(z) * 2e-7, what); };
	is(k + w, t.a + v, t.b + v, t.c + v, "+"); is(k - w, t.a - v, t.b - v, t.c - v, "-"); is(k * w, mul(t.a, v), mul(t.b, v), mul(t.c, v), "*"); is(k / w, div(t.a, v), div(t.b, v), div(t.c, v), "/"); Triangle m = k; is(m += w, t.a + v, t.b + v, t.c + v, "+="); m = k; is(m -= w, t.a - v, t.b - v, t.c - v, "-="); m = k; is(m *= w, mul(t.a, v), mul(t.b, v), mul(t.c, v), "*="); m = k; is(m /= w, div(t.a, v), div(t.b, v), div(t.c, v), "/=");
	D3 z = v; z[s.draw(2)] = 0; if (s.draw(1)) z[s.draw(2)] = 0; saw(s, "v with zeros", z); f32x4 fz = P(s, z); is(k * fz, mul(t.a, z), mul(t.b, z), mul(t.c, z), "* with zeros"); m = k; is(m *= fz, mul(t.a, z), mul(t.b, z), mul(t.c, z), "*= with zeros"); is(k + fz, t.a + z, t.b + z, t.c + z, "+ with zeros"); is(k - fz, t.a - z, t.b - z, t.c - z, "- with zeros"); m = k; is(m += fz, t.a + z, t.b + z, t.c + z, "+= with zeros"); m = k; is(m -= fz, t.a - z, t.b - z, t.c - z, "-= with zeros");
	m = k; c.check(m == k && !(m != k), "a copy differs"); m.p2 = m.p2 + (float)(100 * std::max(1.0, U)); c.check(m != k && !(m == k), "another vertex is equal");
}
PBT_MAIN()
