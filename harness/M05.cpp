// M05: projection matrices against the view volume they describe.
#include "xform.hpp"
#include "math/matrix/projection.hpp"
using namespace pbt; using namespace math;
static DM dmat(const float4x4& m) { DM r; float f[16]; memcpy(f, &m, sizeof f); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = f[4 * i + j]; return r; }
struct Ndc { double x, y, z, w, zmag, xmag, ymag; };
static Ndc project(const DM& m, D3 p) { D4 v = dmulv(m, pt(p)), a = dmulv(dabs(m), { std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2]), 1 }); double w = v[3]; return { v[0] / w, v[1] / w, v[2] / w, w, a[2] / std::fabs(w), a[0] / std::fabs(w), a[1] / std::fabs(w) }; }
// A coordinate of the view volume in [-1,1]: faces, centre, inside, or outside it.
static double coord(Src& s, const char* n) { double v = s.pick({ -1.0, 1.0, 0.0, -0.5, 0.75, 2.0, -3.0 }); if (s.draw(1)) v = s.uni(-1, 1); s.say(n, v); return v; }
enum Kind { INF_REV, REV, FORWARD };
LAW(perspective, 5, "off both axes and not on the near plane")
{
	double fov = s.chance(1, 4) ? s.pick({ 1.5707963267948966, 1.0471975511965976, 0.5, 1.0, 2.0, 0.02, 3.05 }) : s.chance(1, 6) ? std::exp2(s.uni(-12, -1)) : s.uni(0.1, 2.9), asp = s.chance(1, 4) ? s.pick({ 1.0, 1.7777777777777777, 0.5, 2.0, 0.05, 20.0, 5.0 }) : s.uni(0.2, 4); float n = s.chance(1, 3) ? s.pick({ 1.0f, 0.1f, 0.01f, 10.0f, 0.001f, 0.5f, 2.0f, 150.0f, 1000.0f }) : s.real(0.001, 100), f = (float)(n * (s.chance(1, 4) ? s.uni(1.1, 3) : std::exp2(s.uni(0.2, 16))));
	float ff = (float)fov, fa = (float)asp; s.say("fov", ff); s.say("aspect", fa); s.say("near", n); s.say("far", f); int kind = (int)s.draw(2); c.cls(kind == INF_REV ? "infinite reversed" : kind == REV ? "reversed" : "forward");
	DM m = dmat(kind == INF_REV ? calcPerspProjInfRevZ(ff, fa, n) : kind == REV ? calcPerspProjRevZ(ff, fa, n, f) : calcPerspProj(ff, fa, n, f));
	double tz = s.pick({ 0.0, 1.0, 0.5, -0.25, 1.5 }); if (s.draw(1)) tz = s.u01(); double z = n + (f - n) * tz; if (tz < 0) z = n * (1 + 0.9 * tz); s.say("z", z); double u = coord(s, "u"), v = coord(s, "v"), th = std::tan(ff * 0.5); c.trivialIf(u == 0 || v == 0 || z == n);
	double tt = ff * 0.5 * (1 + th * th) / th * 3e-7 + 1e-6; // the tangent of a rounded half angle
	D3 p = { u * z * th * fa, v * z * th, z }; Ndc g = project(m, p); c.near(g.w, z, z * 1e-7, "w is the view depth"); c.near(g.x, u, std::fabs(u) * tt, "x"); c.near(g.y, -v, std::fabs(v) * tt, "y (downwards)");
	auto depth = [&](double zz) { double nn = n, fff = f; return kind == INF_REV ? nn / zz : kind == REV ? nn * (fff - zz) / (zz * (fff - nn)) : fff * (zz - nn) / (zz * (fff - nn)); };
	c.near(g.z, depth(z), g.zmag * 5e-7, "depth"); Ndc a = project(m, { 0, 0, n }), b = project(m, { 0, 0, f }); c.near(a.z, kind == FORWARD ? 0 : 1, a.zmag * 5e-7, "depth of the near plane"); c.near(b.z, kind == FORWARD ? 1 : kind == REV ? 0 : (double)n / f, b.zmag * 5e-7, "depth of the far plane");
	// inside the volume exactly when all coordinates are
	bool in = std::fabs(u) < 0.999 && std::fabs(v) < 0.999 && z > n * 1.001 && (kind == INF_REV || z < f * 0.999), out = std::fabs(u) > 1.001 || std::fabs(v) > 1.001 || z < n * 0.999 || (kind != INF_REV && z > f * 1.001), clip = std::fabs(g.x) <= 1 && std::fabs(g.y) <= 1 && g.z >= 0 && g.z <= 1;
	if ((double)f / n > 1.5 && (double)f / n < 100) { if (in) c.check(clip, "a point inside the frustum is clipped"); if (out) c.check(!clip, "a point outside the frustum is visible"); }
	double z2 = z * (1 + s.uni(0.01, 1)); Ndc h = project(m, { 0, 0, z2 }); double dz = g.z - h.z; if (std::fabs(depth(z) - depth(z2)) > (g.zmag + h.zmag) * 1e-6) c.check(kind == FORWARD ? dz < 0 : dz > 0, "depth is not monotonic");
}
LAW(orthographic, 4, "the box is not centred and the point not in its middle")
{
	auto span = [&](const char* n, double lo, double hi) { double a = s.chance(1, 2) ? s.irange(-10, 10) : s.uni(lo, hi), w = s.chance(1, 2) ? (double)s.range(1, 20) : s.uni(0.5, 50); if (s.chance(1, 3)) { double f = std::exp2(s.uni(-16, 16)); a *= f; w *= f; } float2 r((float)a, (float)(a + w)); if (s.verbose) s.say(fmt("%s=(%.9g,%.9g)", n, r.x, r.y)); return r; };
	float2 w = span("width", -20, 20), h = span("height", -20, 20), d = span("depth", -10, 50); bool rev = s.draw(1); DM m = dmat(rev ? calcOrthoProjRevZ(w, h, d) : calcOrthoProj(w, h, d)); c.cls(rev ? "reversed" : "forward");
	double u = coord(s, "u"), v = coord(s, "v"), t = coord(s, "t"); c.trivialIf(u == 0 || v == 0 || w.x == -w.y || h.x == -h.y); auto mid = [](float2 r, double k) { return ((double)r.x + r.y) / 2 + k * ((double)r.y - r.x) / 2; };
	D3 p = { mid(w, u), mid(h, v), mid(d, t) }; Ndc g = project(m, p); c.near(g.w, 1, 0, "w"); c.near(g.x, u, g.xmag * 1e-6, "x"); c.near(g.y, -v, g.ymag * 1e-6, "y (downwards)"); double dep = (t + 1) / 2; c.near(g.z, rev ? 1 - dep : dep, g.zmag * 1e-6, "depth");
	bool in = std::fabs(u) < 0.99 && std::fabs(v) < 0.99 && std::fabs(t) < 0.99, out = std::fabs(u) > 1.01 || std::fabs(v) > 1.01 || std::fabs(t) > 1.01, clip = std::fabs(g.x) <= 1 && std::fabs(g.y) <= 1 && g.z >= 0 && g.z <= 1; if (in) c.check(clip, "a point inside the box is clipped"); if (out) c.check(!clip, "a point outside the box is visible");
}
LAW(simd_agrees, 2, "the point is off both axes")
{
	// the SIMD matrix made from a projection projects the same points
	float fov = s.real(0.3, 2.5), asp = s.real(0.3, 3), n = s.real(0.01, 2); s.say("fov", fov); float4x4 m = s.draw(1) ? calcPerspProjInfRevZ(fov, asp, n) : calcPerspProj(fov, asp, n, n * 30); D3 p = vec3(s, "p", 20); c.trivialIf(p[0] == 0 || p[1] == 0);
	D4 a = d4(f32x4x4(m) * simd(p, 1.0f)), b = dmulv(dmat(m), pt(p)), e = dmulv(dabs(dmat(m)), { std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2]), 1 }); float4 q = m * float4((float)p[0], (float)p[1], (float)p[2], 1.0f); double qa[4] = { q.x, q.y, q.z, q.w };
	for (int i = 0; i < 4; i++) { c.near(a[i], b[i], e[i] * 5e-7, "f32x4x4 projection"); c.near(qa[i], b[i], e[i] * 5e-7, "float4x4 projection"); }
}
PBT_MAIN()
