// M04: look-at matrices and quaternions, and the inverse of a rotation and translation.
#include "geom.hpp"
using namespace pbt; using namespace math;
struct Frame { D3 s, u, f; };
static Frame frame(D3 f, D3 up) { Frame r; r.f = dnorm(f); r.s = dnorm(dcross(up, r.f)); r.u = dcross(r.f, r.s); return r; }
static DM axes(const Frame& f) { DM r = dident(); for (int i = 0; i < 3; i++) { r.m[0][i] = f.s[i]; r.m[1][i] = f.u[i]; r.m[2][i] = f.f[i]; } return r; }
// A unit look direction and an up vector that may be nearly parallel to it, but at least by the given sine away from it.
static void lookPair(Src& s, Case& c, D3& f, D3& up, double least)
{
	f = dir(s, "direction"); if (s.chance(1, 3)) up = { 0, 1, 0 }; else up = dir(s, "up"); if (s.chance(1, 8)) { D3 v = up; for (int i = 0; i < 3; i++) if (s.draw(1)) v[i] = s.draw(1) ? f[i] : -f[i]; if (dlen(v) > 0.1) up = dnorm(v); } if (s.chance(1, 4)) { double tilt = std::exp2(s.uni(-8, -1)); s.say("tilt", tilt); f = dnorm(up * (s.draw(1) ? 1.0 : -1.0) + dir(s, "tilted to") * tilt); } f = fl(f); up = fl(up); c.assume(dlen(dcross(up, f)) > least); c.trivialIf(std::fabs(f[0]) < 1e-3 || std::fabs(f[1]) < 1e-3 || std::fabs(f[2]) < 1e-3);
}
LAW(look_at, 4, "the direction has three non-zero components")
{
	D3 f, up; lookPair(s, c, f, up, 0.005); D3 from = vec3(s, "from", 20) * drawUnit(s); double dist = std::exp2(s.uni(-1, 5)) * U, ul = s.uni(0.5, 3); s.say("distance", dist); D3 to = fl(from + f * dist); if (s.chance(1, 4)) { ul = std::exp2(s.uni(-20, 20)); s.say("length of up", ul); } up = fl(up * ul); D3 d = to - from; double sn = dlen(dcross(dnorm(up), dnorm(d))); c.assume(sn > 0.004 && dlen(d) > 0.3 * U); c.cls(sn < 0.05 ? "up almost along the view" : "up across the view");
	Frame k = frame(d, up); DM want = dident(); for (int i = 0; i < 3; i++) { want.m[i][0] = k.s[i]; want.m[i][1] = k.u[i]; want.m[i][2] = k.f[i]; } want.m[3][0] = -ddot(k.s, from); want.m[3][1] = -ddot(k.u, from); want.m[3][2] = -ddot(k.f, from);
	float w1 = junk(s), w2 = junk(s), w3 = junk(s); f32x4x4 m = lookAt(simd(from, w1), simd(to, w2), simd(up, w3)); DM g = dm(m); double e = 4e-6 + 1.5e-6 / sn; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.near(g.m[i][j], want.m[i][j], i == 3 ? (dlen(from) + U) * e : e, "lookAt");
	for (int i = 0; i < 4; i++) c.near(g.m[i][3], i == 3, 0, "lookAt must be affine");
	vecNear(c, d3(m * simd(from, 1.0f)), { 0, 0, 0 }, 5e-6 * (dlen(from) + U), "the eye goes to the origin"); D3 tv = d3(m * simd(to, 1.0f)); vecNear(c, tv, { 0, 0, dlen(d) }, 5e-5 * (dlen(from) + dlen(d)), "the target goes to +Z");
	D3 uv = d3(m * simd(up, 0.0f)); c.near(uv[0], 0, 3 * e * dlen(up), "up has no X"); c.check(uv[1] > 0, "up goes to negative Y");
	// the rotation of an object looking the same way
	f32x4x4 r = rotate(simd(from, w1), simd(to, w2), simd(up, w3)); matNear(c, dm(r), axes(k), e, "rotate(from, to, up)"); if (ddot(up, up) > 0) { D3 y = { 0, 1, 0 }; if (dlen(dcross(y, k.f)) > 0.05) { DM gd = dm(lookAt(simd(from, w1), simd(to, w2))), wd = [&] { Frame n = frame(d, y); DM a = dident(); for (int i = 0; i < 3; i++) { a.m[i][0] = n.s[i]; a.m[i][1] = n.u[i]; a.m[i][2] = n.f[i]; } a.m[3][0] = -ddot(n.s, from); a.m[3][1] = -ddot(n.u, from); a.m[3][2] = -ddot(n.f, from); return a; }(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.near(gd.m[i][j], wd.m[i][j], i == 3 ? (dlen(from) + U) * e : e, "lookAt with the default up"); } }
	typedef f32x4x4 (*Rot2)(f32x4, f32x4); Rot2 rot2 = math::rotate; D3 n = fl(k.f); if (s.chance(1, 6)) { D3 v = up; for (int i = 0; i < 3; i++) if (s.draw(1)) v[i] = n[i]; if (dlen(dcross(dnorm(v), n)) > std::max(sn, 0.05)) up = v; } Frame kn = frame(n, up); f32x4x4 r2 = rot2(simd(n, w1), simd(up, w2)); matNear(c, dm(r2), axes(kn), e, "rotate(front, up)");
	if (dlen(dcross({ 0, 1, 0 }, k.f)) > 0.05) matNear(c, dm(rotate(simd(n, w1))), axes(frame(n, { 0, 1, 0 })), e, "rotate(front)");
}
LAW(look_at_quaternion, 3, "the direction has three non-zero components")
{
	D3 f, up; lookPair(s, c, f, up, 0.01); if (s.chance(1, 4)) { double ul = std::exp2(s.uni(0, 30)); s.say("length of up", ul); up = fl(up * ul); } double sn = dlen(dcross(dnorm(up), dnorm(f))), e = 4e-6 + 1.5e-6 / sn; Frame k = frame(f, up); DM want = axes(k); float w1 = junk(s), w2 = junk(s); quat q = lookAtQuat(simd(f, w1), simd(up, w2)); D4 g = dq(q); double l = 0; for (auto v : g) l += v * v; c.near(std::sqrt(l), 1, e, "length of lookAtQuat");
	matNear(c, dquat(qunit(g)), want, e, "axes of lookAtQuat"); vecNear(c, d3(q * f32x4(0, 0, 1, 0)), f, e, "lookAtQuat turns +Z into the direction");
	D3 y = { 0, 1, 0 }; if (dlen(dcross(y, f)) > 0.05) matNear(c, dquat(qunit(dq(lookAtQuat(simd(f, w1))))), axes(frame(f, y)), 2e-5, "lookAtQuat with the default up");
}
LAW(inverse_of_rigid, 3, "general rotation and a translation")
{
	D4 q = anyRot(s, "q"); D3 t = vec3(s, "t", 50); c.trivialIf(!generalRot(q) || dlen(t) == 0); DM r = dquat(qunit(q)), a = fl(dmul(dtrans(t), r)); f32x4x4 m = fm(a), i = inverseTransRot(m); DM inv; c.assume(dinv(a, 4, inv));
	double tol = 1e-6 * (dmaxabs(t) + 1) * 2; matNear(c, dm(i), inv, tol, "inverseTransRot"); matNear(c, dm(i * m), dident(), tol, "inverseTransRot(m) * m"); matNear(c, dm(m * i), dident(), tol, "m * inverseTransRot(m)");
	for (int k = 0; k < 4; k++) c.near(dm(i).m[k][3], k == 3, 1e-6, "inverseTransRot must be affine");
}
PBT_MAIN()
