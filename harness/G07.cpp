// G07: frustum planes against clip coordinates, and culling of (transformed) boxes against their eight corners.
#include "geom.hpp"
#include "math/matrix/projection.hpp"
using namespace pbt; using namespace math;
static DM dmat(const f32x4x4& m) { return dm(m); }
// A projection times a view, as the library computes it.
static f32x4x4 viewProj(Src& s, Case& c)
{
	float4x4 p; switch (s.draw(4)) { case 0: p = calcPerspProjRevZ(s.real(0.4, 2.2), s.real(0.5, 2.5), (float)U * s.real(0.1, 1), (float)U * s.real(20, 200)); break; case 1: p = calcPerspProj(s.real(0.4, 2.2), s.real(0.5, 2.5), (float)U * s.real(0.1, 1), (float)U * s.real(20, 200)); break; case 2: p = calcPerspProjInfRevZ(s.real(0.4, 2.2), s.real(0.5, 2.5), (float)U * s.real(0.1, 1)); break;
	case 3: { float w = (float)U * s.real(1, 20), h = (float)U * s.real(1, 20); p = calcOrthoProjRevZ(float2(-w, w), float2(-h, h), float2(0.0f, (float)U * s.real(5, 50))); break; } default: { float w = (float)U * s.real(1, 20), h = (float)U * s.real(1, 20); p = calcOrthoProj(float2(-w, w * 0.5f), float2(-h * 0.5f, h), float2(0.0f, (float)U * s.real(5, 50))); } }
	if (s.chance(1, 4)) return f32x4x4(p); D3 e = point(s, "eye"), f = dir(s, "look"), up = { 0, 1, 0 }; if (dlen(dcross(up, f)) < 0.1) up = { 1, 0, 0 }; return f32x4x4(p) * lookAt(simd(e), simd(fl(e + f * (5 * U))), simd(up));
}
LAW(planes, 5, "the point is inside the volume or outside of one or two of its sides")
{
	drawUnit(s); f32x4x4 m = viewProj(s, c); DM d = dmat(m); D3 p = point(s, "p", 30); if (s.draw(1)) { DM inv; if (dinv(d, 4, inv)) { D4 q = dmulv(inv, { s.uni(-1.3, 1.3), s.uni(-1.3, 1.3), s.uni(0.02, 1.1), 1 }); if (std::fabs(q[3]) > 1e-6) p = fl(D3{ q[0] / q[3], q[1] / q[3], q[2] / q[3] }); } } saw(s, "p'", p); c.assume(dlen(p) < 1e4 * U);
	D4 k = dmulv(d, pt(p)); double want[6] = { k[3] + k[0], k[3] - k[0], k[3] - k[1], k[3] + k[1], k[2], k[3] - k[2] }; D4 mag = dmulv(dabs(d), { std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2]), 1 }); double tol = (mag[0] + mag[1] + mag[2] + mag[3]) * 1e-6; Plane pl[6]; extractFrustumPlanes(m, pl);
	int neg = 0; std::vector<double> g, w; for (int i = 0; i < 6; i++) { g.push_back(distance3(pl[i], P(s, p))); w.push_back(want[i]); neg += want[i] < 0; } c.trivialIf(neg > 2); c.cls(neg ? "outside" : "inside");
	std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); for (int i = 0; i < 6; i++) c.near(g[i], w[i], tol, "signed plane distances, in ascending order");
	// normalised planes have the same sides and unit normals
	bool finite = true; for (int i = 0; i < 6; i++) finite &= dlen(d3(pl[i].getNormal())) > 1e-12; if (finite) { double raw[6]; for (int i = 0; i < 6; i++) raw[i] = distance3(pl[i], P(s, p)); double len[6]; for (int i = 0; i < 6; i++) len[i] = dlen(d3(pl[i].getNormal())); normalizePlanes(pl, 6); for (int i = 0; i < 6; i++) { c.near(dlen(d3(pl[i].getNormal())), 1, 1e-6, "length of a normalised plane normal"); c.near(distance3(pl[i], P(s, p)), raw[i] / len[i], tol / len[i] * 4, "distance from a normalised plane"); } }
	c.equ(Plane::frustumCount, 6, "frustumCount");
}
LAW(culling, 7, "some corner is outside of a plane")
{
	drawUnit(s); f32x4x4 m = viewProj(s, c); DM d = dmat(m); Box b = box(s, "box", 6); Aabb a = lib(s, b); bool model = s.draw(1); DM M = dident(); if (model) { D3 t = point(s, "t", 20), k = posScale(s, "scale"); M = fl(dmul(dmul(dtrans(t), dquat(qunit(anyRot(s, "q")))), dscale(k))); } f32x4x4 fmod = fm(M); Plane pl[6]; extractFrustumPlanes(m, pl); if (s.draw(1)) { bool ok = true; for (auto& q : pl) ok &= dlen(d3(q.getNormal())) > 1e-12; if (ok) normalizePlanes(pl, 6); } int first = (int)s.draw(5), count = s.chance(2, 3) ? 6 : (int)s.range(0, 6 - first); if (count == 6) first = 0; s.say("first plane", first); s.say("planes", count);
	bool behind = false, margin = false; int outside = 0; for (int i = first; i < first + count; i++)
	{
		D3 n = d3(pl[i].getNormal()); double dist = pl[i].getDistance(), hi = -1e300, e = 0; for (int k = 0; k < 8; k++) { D3 v = { k & 1 ? b.hi[0] : b.lo[0], k & 2 ? b.hi[1] : b.lo[1], k & 4 ? b.hi[2] : b.lo[2] }; D3 w = xyz(dmulv(M, pt(v))); double q = ddot(n, w) + dist; hi = std::max(hi, q); outside += q < 0; D4 mg = dmulv(dabs(M), { std::fabs(v[0]), std::fabs(v[1]), std::fabs(v[2]), 1 }); e = std::max(e, (dmaxabs(n) * (mg[0] + mg[1] + mg[2]) + std::fabs(dist)) * 3e-6); }
		if (hi < -e) behind = true; else if (hi < e) margin = true;
	}
	c.assume(behind || !margin); c.trivialIf(outside == 0); c.cls(behind ? "behind" : outside ? "partly outside" : "inside"); c.check(isBehindFrustum(pl + first, (uint8_t)count, a, fmod) == behind, "isBehindFrustum(box, model) is %d", !behind); if (!model) c.check(isBehindFrustum(pl + first, (uint8_t)count, a) == behind, "isBehindFrustum(box) is %d", !behind);
	// a box holding a visible point is never behind
	bool vis = false; for (int k = 0; k < 9 && !vis; k++) { D3 v; for (int i = 0; i < 3; i++) v[i] = k == 8 ? (b.lo[i] + b.hi[i]) / 2 : k >> i & 1 ? b.hi[i] : b.lo[i]; D3 w = xyz(dmulv(M, pt(v))); vis = true; for (int i = first; i < first + count; i++) vis &= ddot(d3(pl[i].getNormal()), w) + pl[i].getDistance() > 1e-2; } if (vis) c.check(!isBehindFrustum(pl + first, (uint8_t)count, a, fmod), "a box with a visible point is reported as behind");
}
// Integer planes, boxes and models: every step is exact, so a corner on a plane is not behind it.
LAW(culling_lattice, 4, "some corner is outside of a plane")
{
	drawUnit(s); double lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = (double)s.irange(-6, 6); hi[i] = lo[i] + (double)s.range(0, 5); } Box b{ { lo[0] * U, lo[1] * U, lo[2] * U }, { hi[0] * U, hi[1] * U, hi[2] * U } }; saw(s, "min", b.lo); saw(s, "max", b.hi); bool model = s.draw(1); DM M = dident();
	if (model) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M.m[i][j] = (double)s.irange(-2, 2); for (int i = 0; i < 3; i++) M.m[3][i] = (double)s.irange(-8, 8) * U; if (s.verbose) for (int i = 0; i < 4; i++) saw(s, fmt("model column %d", i).c_str(), D3{ M.m[i][0], M.m[i][1], M.m[i][2] }); }
	int count = (int)s.range(0, 9); std::vector<Plane> pl(count + 2, Plane(f32x4(0.0f, 1.0f, 0.0f, 0.0f), -1e6f * (float)U, false)); bool behind = false, on = false; int outside = 0; for (int i = 0; i < count; i++)
	{
		D3 n; for (auto& v : n) v = (double)s.irange(-3, 3); double hiD = -1e300, dist = (double)s.irange(-40, 40) * U; double q[8]; for (int k = 0; k < 8; k++) { D3 v = { k & 1 ? b.hi[0] : b.lo[0], k & 2 ? b.hi[1] : b.lo[1], k & 4 ? b.hi[2] : b.lo[2] }; q[k] = ddot(n, xyz(dmulv(M, pt(v)))); hiD = std::max(hiD, q[k]); }
		if (s.chance(1, 3)) dist = -q[s.draw(7)]; else if (s.chance(1, 2)) dist = -hiD + (double)s.irange(-1, 1) * U; for (double v : q) outside += v + dist < 0; behind |= hiD + dist < 0; on |= hiD + dist == 0; saw(s, "normal", n); s.say("distance", dist); pl[1 + i] = Plane(P(s, n), (float)dist, false);
	}
	c.trivialIf(!outside); c.cls(behind ? "behind" : on ? "touching" : outside ? "partly outside" : "inside"); Aabb a = lib(s, b); c.check(isBehindFrustum(pl.data() + 1, (uint8_t)count, a, fm(M)) == behind, "isBehindFrustum(box, model) is %d", !behind); if (!model) c.check(isBehindFrustum(pl.data() + 1, (uint8_t)count, a) == behind, "isBehindFrustum(box) is %d", !behind);
}
PBT_MAIN()
