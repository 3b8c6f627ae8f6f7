// G06: intersection of boxes, triangles and spheres; polygon clipping and distances in double are the reference.
#include "geom.hpp"
using namespace pbt; using namespace math;
LAW(box_box, 4, "the boxes overlap along at least two axes")
{
	drawUnit(s, 40); Box a = box(s, "a"), b = box(s, "b"); if (s.draw(1)) for (int i = 0; i < 3; i++) { double e = b.hi[i] - b.lo[i], u = a.lo[i] + (a.hi[i] - a.lo[i]) * s.uni(-0.3, 1.1); b.lo[i] = (float)u; b.hi[i] = (float)(u + e); } saw(s, "b.min'", b.lo); saw(s, "b.max'", b.hi);
	double gap = -1e300; int over = 0; for (int i = 0; i < 3; i++) { double g = std::max(a.lo[i], b.lo[i]) - std::min(a.hi[i], b.hi[i]); gap = std::max(gap, g); over += g < 0; } c.trivialIf(over < 2); c.cls(gap < 0 ? "overlap" : gap == 0 ? "touching" : "apart"); Aabb x = lib(s, a), y = lib(s, b);
	c.check(isIntersected(x, y) == (gap <= 0), "isIntersected(a, b) is %d", gap > 0); c.check(isIntersected(y, x) == (gap <= 0), "isIntersected(b, a) is %d", gap > 0);
	// the same boxes against a third one
	Box e = a; int m = (int)s.draw(2); double by = U * s.pick({ 1.0, -1.0, 4.0, -4.0, 30.0, -30.0 }); e.lo[m] = (float)(e.lo[m] + by); e.hi[m] = (float)(e.hi[m] + by); saw(s, "third.min", e.lo); saw(s, "third.max", e.hi); Aabb z = lib(s, e);
	auto meet = [](const Box& p, const Box& q) { for (int i = 0; i < 3; i++) if (p.lo[i] > q.hi[i] || q.lo[i] > p.hi[i]) return false; return true; };
	c.check(isIntersected(y, z) == meet(b, e), "isIntersected(b, third) is %d", !meet(b, e)); c.check(isIntersected(x, z) == meet(a, e), "isIntersected(a, third) is %d", !meet(a, e)); c.check(isIntersected(x, y) == meet(a, b), "isIntersected(a, b) is %d after other boxes", !meet(a, b)); c.check(isIntersected(z, y) == meet(e, b), "isIntersected(third, b) is %d", !meet(e, b));
}
static std::vector<D3> clip(std::vector<D3> poly, int axis, double sign, double lim) // keeps sign * p[axis] <= lim
{
	std::vector<D3> r; for (size_t i = 0; i < poly.size(); i++) { D3 p = poly[i], q = poly[(i + 1) % poly.size()]; double a = sign * p[axis] - lim, b = sign * q[axis] - lim; if (a <= 0) r.push_back(p); if ((a < 0 && b > 0) || (a > 0 && b < 0)) r.push_back(p + (q - p) * (a / (a - b))); } return r;
}
static bool touches(const Tri& t, D3 pos, D3 ext, double grow)
{
	std::vector<D3> p = { t.a - pos, t.b - pos, t.c - pos }; for (int i = 0; i < 3; i++) { if (ext[i] + grow < 0) return false; p = clip(p, i, 1, ext[i] + grow); if (p.empty()) return false; p = clip(p, i, -1, ext[i] + grow); if (p.empty()) return false; } return true;
}
LAW(box_triangle, 8, "no vertex of the triangle is inside the box, or they do not meet although their bounds do")
{
	drawUnit(s); D3 pos = point(s, "position", 5), ext; for (auto& v : ext) v = U * (s.chance(1, 2) ? (double)s.range(1, 4) : (float)s.uni(0.1, 5)); saw(s, "extent", ext); Tri t; int kind = (int)s.draw(3);
	if (kind == 0) { t.a = point(s, "a", 8); t.b = point(s, "b", 8); t.c = point(s, "c", 8); }
	else if (kind == 1) { // large triangle whose plane passes near a corner of the box
		D3 n = dir(s, "n"), u = dnorm(dcross(n, std::fabs(n[0]) < 0.8 ? D3{ 1, 0, 0 } : D3{ 0, 1, 0 })), v = dcross(n, u); double r = std::fabs(n[0]) * ext[0] + std::fabs(n[1]) * ext[1] + std::fabs(n[2]) * ext[2], k = r * s.uni(0.8, 1.2) * (s.draw(1) ? 1 : -1); D3 o = pos + n * k; t.a = fl(o + u * s.uni(2, 15) * U + v * s.uni(-10, 10) * U); t.b = fl(o - u * s.uni(2, 15) * U + v * s.uni(2, 10) * U); t.c = fl(o - v * s.uni(2, 15) * U); }
	else if (kind == 2) { // an edge passes near an edge of the box
		int ax = (int)s.draw(2); D3 corner = pos; for (int i = 0; i < 3; i++) if (i != ax) corner[i] += ext[i] * (s.draw(1) ? 1 : -1); else corner[i] += ext[i] * s.uni(-1, 1); D3 d = dir(s, "edge"); D3 off = dir(s, "off") * s.uni(-0.5, 0.5) * U; t.a = fl(corner + off + d * s.uni(1, 10) * U); t.b = fl(corner + off - d * s.uni(1, 10) * U); t.c = fl(corner + (corner - pos) * s.uni(0.2, 3) + dir(s, "o") * s.uni(0, 3) * U); }
	else { D3 q = pos; for (int i = 0; i < 3; i++) q[i] += ext[i] * s.uni(-1.4, 1.4); t.a = fl(q); t.b = fl(q + dir(s, "e1") * s.uni(0.2, 12) * U); t.c = fl(q + dir(s, "e2") * s.uni(0.2, 12) * U); }
	saw(s, "a", t.a); saw(s, "b", t.b); saw(s, "c", t.c); if (dlen(t.n()) <= 0.02 * t.size() * t.size()) throw Discard();
	double e = 3e-4 * (U + t.size() + dmaxabs(pos) + dmaxabs(ext)); bool big = touches(t, pos, ext, e), small = touches(t, pos, ext, -e); c.assume(big == small); Box tb = { { std::min(t.a[0], std::min(t.b[0], t.c[0])), std::min(t.a[1], std::min(t.b[1], t.c[1])), std::min(t.a[2], std::min(t.b[2], t.c[2])) }, { std::max(t.a[0], std::max(t.b[0], t.c[0])), std::max(t.a[1], std::max(t.b[1], t.c[1])), std::max(t.a[2], std::max(t.b[2], t.c[2])) } };
	bool in = false, bounds = true; for (auto v : { t.a, t.b, t.c }) { D3 q = v - pos; in |= std::fabs(q[0]) < ext[0] && std::fabs(q[1]) < ext[1] && std::fabs(q[2]) < ext[2]; } for (int i = 0; i < 3; i++) bounds &= tb.lo[i] <= pos[i] + ext[i] && tb.hi[i] >= pos[i] - ext[i]; c.cls(big ? (in ? "vertex inside" : "crossing") : bounds ? "apart, bounds overlap" : "bounds apart"); c.trivialIf(in || !bounds);
	f32x4 fp = P(s, pos), fe = P(s, ext); c.check(isAabbIntersected(fp, fe, lib(s, t)) == big, "isAabbIntersected(position, extent, triangle) is %d", !big);
	// the answer does not depend on the order of the vertices
	Tri r = { t.c, t.b, t.a }; c.check(isAabbIntersected(fp, fe, lib(s, r)) == big, "isAabbIntersected of the reversed triangle is %d", !big);
}
// On the lattice every step is exact, so that touching counts: closed sets share a point unless one of the thirteen axes separates them.
LAW(box_triangle_lattice, 4, "no vertex of the triangle is inside the box, and the bounds meet")
{
	drawUnit(s); using I3 = std::array<int64_t, 3>; auto iv = [&](const char* n, int lo, int hi) { I3 r; for (auto& v : r) v = s.irange(lo, hi); if (s.verbose) saw(s, n, D3{ (double)r[0], (double)r[1], (double)r[2] }); return r; };
	I3 pos = iv("position", -4, 4), ext = iv("extent", 1, 4), v[3]; int kind = (int)s.draw(3); for (int k = 0; k < 3; k++) { v[k] = iv(fmt("vertex %d", k).c_str(), -6, 6); if (kind == 1 && k < 2) { int a = (int)s.draw(2); v[k][a] = pos[a] + ext[a] * (s.draw(1) ? 1 : -1); } if (kind == 2) { int a = (int)s.draw(2), b = (a + 1) % 3; for (int i : { a, b }) v[k][i] = v[k][i] >= pos[i] ? pos[i] + ext[i] : pos[i] - ext[i]; } }
	if (kind == 3) { int a = (int)s.draw(2); int64_t q = pos[a] + (s.draw(1) ? 1 : -1) * (ext[a] + (int64_t)s.draw(1)); for (auto& p : v) p[a] = q; } if (s.verbose) for (auto& p : v) saw(s, "vertex'", D3{ (double)p[0], (double)p[1], (double)p[2] });
	I3 r[3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) r[k][i] = v[k][i] - pos[i]; auto cross = [](I3 a, I3 b) { return I3{ a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }; auto dot = [](I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
	bool hit = true, touch = false, bounds = true; auto axis = [&](I3 n) { if (n == I3{ 0, 0, 0 }) return; int64_t R = ext[0] * std::llabs(n[0]) + ext[1] * std::llabs(n[1]) + ext[2] * std::llabs(n[2]), lo = INT64_MAX, hi = INT64_MIN; for (auto& p : r) { int64_t d = dot(p, n); lo = std::min(lo, d); hi = std::max(hi, d); } if (lo > R || hi < -R) hit = false; if (lo == R || hi == -R) touch = true; };
	for (int i = 0; i < 3; i++) { I3 e{}; e[i] = 1; axis(e); } bounds = hit; I3 f[3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) f[k][i] = r[(k + 1) % 3][i] - r[k][i]; axis(cross(f[0], f[1])); for (int i = 0; i < 3; i++) for (auto& g : f) { I3 e{}; e[i] = 1; axis(cross(e, g)); }
	bool in = false; for (auto& p : r) in |= std::llabs(p[0]) <= ext[0] && std::llabs(p[1]) <= ext[1] && std::llabs(p[2]) <= ext[2]; c.trivialIf(in || !bounds); c.cls(!hit ? (bounds ? "apart, bounds meet" : "bounds apart") : touch ? "touching" : "crossing"); auto D = [](I3 a) { return D3{ a[0] * U, a[1] * U, a[2] * U }; };
	Tri t{ D(v[0]), D(v[1]), D(v[2]) }; f32x4 fp = P(s, D(pos)), fe = P(s, D(ext)); c.check(isAabbIntersected(fp, fe, lib(s, t)) == hit, "isAabbIntersected(position, extent, triangle) is %d", !hit); t = { t.b, t.a, t.c }; c.check(isAabbIntersected(fp, fe, lib(s, t)) == hit, "isAabbIntersected of the turned triangle is %d", !hit);
}
// Spheres on the lattice: tangent ones share a point.
LAW(spheres_lattice, 1, "the spheres touch, or nearly")
{
	drawUnit(s, 40); int64_t a[3], b[3], d2 = 0; D3 p, q; for (int i = 0; i < 3; i++) { a[i] = s.irange(-6, 6); b[i] = s.irange(-6, 6); d2 += (a[i] - b[i]) * (a[i] - b[i]); p[i] = a[i] * U; q[i] = b[i] * U; } saw(s, "a", p); saw(s, "b", q); int64_t r1 = s.range(0, 8), r2 = s.range(0, 8); if (s.draw(1)) r2 = std::max<int64_t>(0, (int64_t)std::lround(std::sqrt((double)d2)) - r1); s.say("r1", (double)r1); s.say("r2", (double)r2);
	bool hit = d2 <= (r1 + r2) * (r1 + r2); c.trivialIf(std::fabs(std::sqrt((double)d2) - (r1 + r2)) > 1); c.cls(d2 == (r1 + r2) * (r1 + r2) ? "touching" : hit ? "meet" : "apart"); Sphere x((float)(r1 * U), P(s, p)), y((float)(r2 * U), P(s, q)); c.check(isIntersected(x, y) == hit && isIntersected(y, x) == hit, "isIntersected(sphere, sphere) is %d", !hit);
	if (d2 != r1 * r1) c.check(isInside(x, P(s, q)) == (d2 < r1 * r1), "isInside(sphere, point) is %d", d2 >= r1 * r1);
}
LAW(spheres, 5, "the distance is within a factor of two of the limit")
{
	drawUnit(s, 40); D3 a = point(s, "a"), b = point(s, "b"); if (s.chance(1, 6)) { int k = (int)s.draw(2); double v = b[k]; if (s.draw(1)) a = { 0, 0, 0 }; b = a; b[k] = v; saw(s, "a'", a); saw(s, "b on an axis of a", b); } else if (s.chance(1, 10)) { b = fl(b * std::exp2(s.uni(2, 12))); saw(s, "b far away", b); } double d = dlen(a - b); float r1 = (float)(U * (s.draw(1) ? (double)s.range(1, 8) : s.uni(0, 10))), r2 = (float)(U * (s.draw(1) ? (double)s.range(1, 8) : s.uni(0, 10))); if (s.draw(1)) r1 = (float)std::max(0.1 * U, d * s.uni(0.5, 1.5)); if (s.draw(1)) r2 = (float)std::max(0.1 * U, (d - r1) * s.uni(0.5, 1.5)); s.say("r1", r1); s.say("r2", r2); double e = 1e-5 * (U + dlen(a) + dlen(b) + r1 + r2); Sphere x(r1, P(s, a)), y(r2, P(s, b));
	vecNear(c, d3(x.getPosition()), a, 0, "getPosition"); c.eqf(x.getRadius(), r1, "getRadius"); if (std::fabs(d - r1) > e) c.check(isInside(x, P(s, b)) == (d < r1), "isInside(sphere, point) is %d", d >= r1); bool near = d > r1 * 0.5 && d < r1 * 2;
	if (std::fabs(d - ((double)r1 + r2)) > e) c.check(isIntersected(x, y) == (d < (double)r1 + r2) && isIntersected(y, x) == (d < (double)r1 + r2), "isIntersected(sphere, sphere) is %d", d >= (double)r1 + r2); near |= d > (r1 + r2) * 0.5 && d < (r1 + r2) * 2;
	if (d > 1e-3 * U) { D3 k = a + (b - a) * (r1 / d); vecNear(c, d3(closestPoint(x, P(s, b))), k, e * 0.2, "closestPoint(sphere, point)"); }
	Box o = box(s, "box"); D3 q; for (int i = 0; i < 3; i++) q[i] = std::min(o.hi[i], std::max(o.lo[i], a[i])); double bd = dlen(a - q); if (std::fabs(bd - r1) > e) c.check(isIntersected(x, lib(s, o)) == (bd < r1), "isIntersected(sphere, box) is %d", bd >= r1); near |= bd > r1 * 0.5 && bd < r1 * 2; c.trivialIf(!near); c.cls(bd == 0 ? "centre in the box" : bd < r1 ? "sphere meets the box" : "sphere misses the box");
	Sphere z = x; c.check(z == x && !(z != x), "a copy differs"); z.setRadius(r1 + (float)U); c.eqf(z.getRadius(), r1 + (float)U, "setRadius"); vecNear(c, d3(z.getPosition()), a, 0, "setRadius must keep the position"); c.check(z != x && !(z == x) && x != z && !(x == z), "another radius is equal"); z = x; c.check(z == x && x == z && !(z != x), "a copy assigned differs"); z.setPosition(P(s, b)); if (a != b) c.check(z != x && !(z == x) && x != z && !(x == z), "another position is equal"); vecNear(c, d3(z.getPosition()), b, 0, "setPosition"); c.eqf(z.getRadius(), r1, "setPosition must keep the radius");
	{ Sphere none, some(r1); c.eqf(none.getRadius(), 0, "the empty sphere"); vecNear(c, d3(none.getPosition()), { 0, 0, 0 }, 0, "position of the empty sphere"); c.eqf(some.getRadius(), r1, "radius of a sphere at the origin"); vecNear(c, d3(some.getPosition()), { 0, 0, 0 }, 0, "position by default"); } c.eqf(Sphere::one.getRadius(), 0.5f, "Sphere::one"); c.eqf(Sphere::two.getRadius(), 1.0f, "Sphere::two"); c.eqf(Sphere::half.getRadius(), 0.25f, "Sphere::half");
}
PBT_MAIN()
