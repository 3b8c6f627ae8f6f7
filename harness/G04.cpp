// G04: Aabb as the set of points between min and max, over histories of edits.
#include "geom.hpp"
#include <set>
using namespace pbt; using namespace math;
static D3 mul(D3 a, D3 b) { return { a[0] * b[0], a[1] * b[1], a[2] * b[2] }; }
static D3 mn(D3 a, D3 b) { return { std::min(a[0], b[0]), std::min(a[1], b[1]), std::min(a[2], b[2]) }; }
static D3 mx(D3 a, D3 b) { return { std::max(a[0], b[0]), std::max(a[1], b[1]), std::max(a[2], b[2]) }; }
static bool le(D3 a, D3 b) { return a[0] <= b[0] && a[1] <= b[1] && a[2] <= b[2]; }
static bool inside(const Box& b, D3 p) { return le(b.lo, p) && le(p, b.hi); }
static void compare(Case& c, const Aabb& a, const Box& m, double& tol, const char* op)
{
	vecNear(c, d3(a.getMin()), m.lo, tol, op); vecNear(c, d3(a.getMax()), m.hi, tol, op); D3 sz = m.hi - m.lo; double e = tol * 3 + (dmaxabs(m.lo) + dmaxabs(m.hi)) * 3e-7;
	vecNear(c, d3(a.getSize()), sz, e, "getSize"); vecNear(c, d3(a.getPosition()), (m.lo + m.hi) * 0.5, e, "getPosition"); vecNear(c, d3(a.getExtent()), sz * 0.5, e, "getExtent"); f32x4 x, y; a.getExtent(x, y); vecNear(c, d3(x), sz * 0.5, e, "getExtent(extent, position): extent"); vecNear(c, d3(y), (m.lo + m.hi) * 0.5, e * 2, "getExtent(extent, position): position");
	double big = std::max(e, dmaxabs(sz)); c.near(a.calcVolume(), sz[0] * sz[1] * sz[2], e * 4 * big * big, "calcVolume"); c.near(a.calcArea(), 2 * (sz[0] * sz[1] + sz[1] * sz[2] + sz[2] * sz[0]), e * 13 * big, "calcArea");
}
LAW(history, 6, "at least three edits of different kinds")
{
	drawUnit(s, 25); Box m = box(s, "start"); Aabb a = lib(s, m); double tol = 0; int n = (int)s.range(1, 12); u64 kinds = 0; D3 p; Box o; compare(c, a, m, tol, "constructor");
	for (int i = 0; i < n; i++)
	{
		int k = (int)s.draw(14); const char* op = ""; kinds |= 1ull << k; // the model repeats the float arithmetic, so results are compared exactly except after scaling
		switch (k)
		{
		case 0: op = "setMin"; p = mn(point(s, op), m.hi); m.lo = p; a.setMin(P(s, p)); break;
		case 1: op = "setMax"; p = mx(point(s, op), m.lo); m.hi = p; a.setMax(P(s, p)); break;
		case 2: op = "set"; m = box(s, op); { f32x4 x = P(s, m.lo), y = P(s, m.hi); a.set(x, y); } break;
		case 3: case 4:
		{
			op = "trySet"; D3 x = point(s, "trySet min"), y = point(s, "trySet max"); int fix = (int)s.draw(3); if (fix == 0) { D3 t = mn(x, y); y = mx(x, y); x = t; } else if (fix == 1) { D3 t = mn(x, y); y = mx(x, y); x = t; int q = (int)s.draw(2); std::swap(x[q], y[q]); }
			bool ok = le(x, y); f32x4 fx = P(s, x), fy = P(s, y); bool r = a.trySet(fx, fy); c.check(r == ok, "trySet returned %d for a%s box", r, ok ? " valid" : "n inverted"); if (ok) m = { x, y }; break;
		}
		case 5: op = "setSize"; p = point(s, op); for (auto& v : p) v = std::fabs(v); a.setSize(P(s, p)); m = { fl(p * -0.5), fl(p * 0.5) }; break;
		case 6: { op = "setSize(size, position)"; p = point(s, op); D3 q = point(s, "position"); for (auto& v : p) v = std::fabs(v); f32x4 x = P(s, p), y = P(s, q); a.setSize(x, y); m = { fl(q - p * 0.5), fl(q + p * 0.5) }; break; }
		case 7: op = "setExtent"; p = point(s, op); for (auto& v : p) v = std::fabs(v); a.setExtent(P(s, p)); m = { p * -1, p }; break;
		case 8: { op = "setExtent(extent, position)"; p = point(s, op); D3 q = point(s, "position"); for (auto& v : p) v = std::fabs(v); f32x4 x = P(s, p), y = P(s, q); a.setExtent(x, y); m = { fl(q - p), fl(q + p) }; break; }
		case 9: op = "extend(point)"; p = point(s, op, 20); a.extend(P(s, p)); m = { mn(m.lo, p), mx(m.hi, p) }; break;
		case 10: op = "extend(box)"; o = box(s, op, 20); a.extend(lib(s, o)); m = { mn(m.lo, o.lo), mx(m.hi, o.hi) }; break;
		case 11: op = "shrink(box)"; o = box(s, op, 20); if (!le(mx(m.lo, o.lo), mn(m.hi, o.hi))) o = { m.lo - D3{ U, U, U }, m.lo }; a.shrink(lib(s, o)); m = { mx(m.lo, o.lo), mn(m.hi, o.hi) }; break;
		case 12: op = "shrink(point)"; p = s.draw(1) ? m.lo : m.hi; a.shrink(P(s, p)); m = { p, p }; break;
		case 13: op = "translate"; p = point(s, op); if (s.draw(1)) a.translate(P(s, p)); else if (s.draw(1)) a += P(s, p); else { a -= P(s, p * -1); } m = { fl(m.lo + p), fl(m.hi + p) }; break;
		default: op = "scale"; p = point(s, op, 2) * (1 / U); for (auto& v : p) v = std::fabs(v) < 0.1 ? 0.5 : std::fabs(v); { int w = (int)s.draw(2); if (w == 0) { a.scale(P(s, p)); m = { fl(mul(m.lo, p)), fl(mul(m.hi, p)) }; } else if (w == 1) { a *= P(s, p); m = { fl(mul(m.lo, p)), fl(mul(m.hi, p)) }; } else { a /= P(s, p); D3 q = { 1 / p[0], 1 / p[1], 1 / p[2] }; m = { mul(m.lo, q), mul(m.hi, q) }; tol += (dmaxabs(m.lo) + dmaxabs(m.hi)) * 3e-7; m = { d3(a.getMin()), d3(a.getMax()) }; tol = 0; } } break;
		}
		compare(c, a, m, tol, op); if (dmaxabs(m.lo) > 1e4 * U || dmaxabs(m.hi) > 1e4 * U) break;
	}
	int distinct = 0; for (; kinds; kinds &= kinds - 1) distinct++; c.trivialIf(distinct < 3);
}
LAW(operators, 2, "the vector has three different components")
{
	drawUnit(s, 40); Box b = box(s, "box"); D3 v = point(s, "v"); for (auto& x : v) if (x == 0) x = 2; D3 w = v; for (auto& x : w) x = std::fabs(x); c.trivialIf(v[0] == v[1] || v[1] == v[2]); Aabb a = lib(s, b);
	auto is = [&](const Aabb& g, D3 lo, D3 hi, const char* what) { vecNear(c, d3(g.getMin()), lo, dmaxabs(lo) * 2e-7, what); vecNear(c, d3(g.getMax()), hi, dmaxabs(hi) * 2e-7, what); }; D3 iw = { 1 / w[0], 1 / w[1], 1 / w[2] };
	is(a + P(s, v), b.lo + v, b.hi + v, "+"); is(a - P(s, v), b.lo - v, b.hi - v, "-"); is(a * P(s, w), mul(b.lo, w), mul(b.hi, w), "*"); is(a / P(s, w), mul(b.lo, iw), mul(b.hi, iw), "/"); Aabb t = a; is(t += P(s, v), b.lo + v, b.hi + v, "+="); t = a; is(t -= P(s, v), b.lo - v, b.hi - v, "-="); t = a; is(t *= P(s, w), mul(b.lo, w), mul(b.hi, w), "*="); t = a; is(t /= P(s, w), mul(b.lo, iw), mul(b.hi, iw), "/=");
}
LAW(membership, 5, "the point or box is inside, or outside along one axis only")
{
	drawUnit(s, 40); Box b = box(s, "box"), o; Aabb a = lib(s, b); D3 p; int outs = 0, wrong = 0;
	// inside along each axis, except one axis at times; on the border too (comparisons are exact)
	for (int i = 0; i < 3; i++) { double u = s.pick({ 0.0, 1.0, 0.5, 0.25, 0.75 }); p[i] = (float)(b.lo[i] + (b.hi[i] - b.lo[i]) * u); if (s.chance(1, 4)) { p[i] = s.draw(1) ? b.lo[i] - U * s.pick({ 1e-3, 1.0, 5.0 }) : b.hi[i] + U * s.pick({ 1e-3, 1.0, 5.0 }); p[i] = (float)p[i]; } outs += p[i] < b.lo[i] || p[i] > b.hi[i]; }
	saw(s, "p", p); bool in = outs == 0; c.trivialIf(outs > 1); c.check(isInside(a, P(s, p)) == in, "isInside(box, point) is %d", !in); D3 want; for (int i = 0; i < 3; i++) want[i] = std::min(b.hi[i], std::max(b.lo[i], p[i])); vecNear(c, d3(closestPoint(a, P(s, p))), want, 0, "closestPoint(box, p)");
	for (int i = 0; i < 3; i++) { double x = (float)(b.lo[i] + (b.hi[i] - b.lo[i]) * s.pick({ 0.0, 0.25 })), y = (float)(b.lo[i] + (b.hi[i] - b.lo[i]) * s.pick({ 1.0, 0.75, 0.5 })); if (s.chance(1, 6)) x -= U * s.pick({ 0.5, 3.0 }); if (s.chance(1, 6)) y += U * s.pick({ 0.5, 3.0 }); o.lo[i] = (float)x; o.hi[i] = (float)y; wrong += o.lo[i] < b.lo[i] || o.hi[i] > b.hi[i]; }
	saw(s, "o.min", o.lo); saw(s, "o.max", o.hi); c.check(isInside(a, lib(s, o)) == (wrong == 0), "isInside(box, box) is %d", wrong != 0);
	c.check(isInside(Aabb::full, P(s, p)) && isInside(Aabb::inf, P(s, p)), "a point is outside the full or infinite box"); auto unit = [&](const Aabb& k, double h) { return isInside(k, P(s, p)) == (dmaxabs(p) <= h); }; c.check(unit(Aabb::zero, 0) && unit(Aabb::one, 0.5) && unit(Aabb::two, 1) && unit(Aabb::half, 0.25), "a named box has another size");
}
LAW(ordering, 2, "the boxes differ in one component")
{
	drawUnit(s, 40); Box b = box(s, "box"), o = b; int i = (int)s.draw(6); if (i < 3) o.lo[i] = (float)(o.lo[i] - U * s.uni(0.5, 3)); else if (i < 6) o.hi[i - 3] = (float)(o.hi[i - 3] + U * s.uni(0.5, 3)); c.trivialIf(i == 6); saw(s, "o.min", o.lo); saw(s, "o.max", o.hi); Aabb x(simd(b.lo), simd(b.hi)), y(simd(o.lo), simd(o.hi));
	c.check((x == y) == (i == 6) && (x != y) == (i != 6), "== or != of boxes"); c.check(isBinaryLess(x, y) + isBinaryLess(y, x) == (i != 6), "isBinaryLess does not order two boxes that differ in component %d", i); Box q = box(s, "third"); Aabb z(simd(q.lo), simd(q.hi)); c.check(!(isBinaryLess(x, y) && isBinaryLess(y, z)) || isBinaryLess(x, z), "isBinaryLess is not transitive");
	// every pair, with either operand kept from one comparison to the next
	Aabb k[4] = { x, y, x, z }; Box bk[4] = { b, o, b, q }; auto one = [&](int m, int n) { bool same = bk[m].lo == bk[n].lo && bk[m].hi == bk[n].hi; bool signs = false; for (int t = 0; t < 3; t++) signs |= std::signbit(bk[m].lo[t]) != std::signbit(bk[n].lo[t]) || std::signbit(bk[m].hi[t]) != std::signbit(bk[n].hi[t]); if (same && signs) return; c.check((k[m] == k[n]) == same && (k[m] != k[n]) == !same, "== or != of boxes %d and %d", m, n); c.check(isBinaryLess(k[m], k[n]) + isBinaryLess(k[n], k[m]) == !same, "isBinaryLess of boxes %d and %d", m, n); };
	bool less[4][4]; for (int m = 0; m < 4; m++) for (int n = 0; n < 4; n++) { one(m, n); less[m][n] = isBinaryLess(k[m], k[n]); } for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) { bool same = bk[m].lo == bk[n].lo && bk[m].hi == bk[n].hi; if (!same) c.check((k[m] == k[n]) == same, "== of boxes %d and %d, the other way round", m, n); } for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) { bool same = bk[m].lo == bk[n].lo && bk[m].hi == bk[n].hi; if (!same) c.check(k[m] != k[n], "!= of boxes %d and %d, the other way round", m, n); } for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) c.check(isBinaryLess(k[m], k[n]) == less[m][n], "isBinaryLess of boxes %d and %d changes", m, n);
}
PBT_MAIN()
