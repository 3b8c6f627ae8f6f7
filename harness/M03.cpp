// M03: translation, rotation and scale matrices, their composition and their extraction.
#include "xform.hpp"
using namespace pbt; using namespace math;
LAW(builders, 3, "the rotation has no zero component")
{
	D3 t = scaled(s, "t", vec3(s, "t", 50)), k = anyScale(s, "scale"), p = scaled(s, "p", vec3(s, "p", 20)); D4 q = anyRot(s, "q"); c.trivialIf(!generalRot(q)); float w = junk(s);
	matNear(c, dm(translate(simd(t, w))), dtrans(t), 0, "translate(t)"); matNear(c, dm(scale(simd(k, w))), dscale(k), 0, "scale(s)"); matNear(c, dm(rotate(Q(q))), dquat(q), 6e-7, "rotate(q)");
	f32x4 x = simd(p, 1.0f); vecNear(c, d3(translate(simd(t, w)) * x), p + t, (dmaxabs(p) + dmaxabs(t)) * 2e-7, "translate(t) * p"); vecNear(c, d3(scale(simd(k, w)) * x), { p[0] * k[0], p[1] * k[1], p[2] * k[2] }, dmaxabs(k) * dmaxabs(p) * 1e-6, "scale(s) * p");
	vecNear(c, d3(rotate(Q(q)) * x), xyz(dmulv(dquat(q), pt(p))), dlen(p) * 1e-6, "rotate(q) * p");
	// get and set of the translation
	DM a = affine(s, "m"); if (s.chance(1, 3)) { for (auto& col : a.m) for (auto& x : col) if (s.draw(1)) x = s.anyFloat(); for (auto& x : t) if (s.draw(1)) x = s.anyFloat(); saw(s, "t", t); s.say("any entries"); } f32x4x4 m = fm(a); vecNear(c, d3(getTranslation(m)), { a.m[3][0], a.m[3][1], a.m[3][2] }, 0, "getTranslation"); setTranslation(m, simd(t, w)); DM b = a; for (int i = 0; i < 3; i++) b.m[3][i] = t[i]; matNear(c, dm(m), b, 0, "setTranslation");
}
LAW(composition, 4, "the matrix is not symmetric")
{
	DM a = affine(s, "m"); if (s.chance(1, 4)) for (int i = 0; i < 4; i++) { double f = std::exp2(s.uni(-10, 18)); s.say("column times", f); for (int j = 0; j < 3; j++) a.m[i][j] = (float)(a.m[i][j] * f); } D3 t = scaled(s, "t", vec3(s, "t", 20)), k = anyScale(s, "scale"); float w = junk(s); c.trivialIf(a.m[0][1] == a.m[1][0] || a.m[0][2] == a.m[2][0]); f32x4x4 m = fm(a);
	double tol = (dmax(a) + 1) * (dmaxabs(t) + 1) * 2e-6, st = dmax(a) * dmaxabs(k) * 1e-6;
	matNear(c, dm(translate(m, simd(t, w))), dmul(a, dtrans(t)), tol, "translate(m, t) = m * translate(t)"); matNear(c, dm(translate(simd(t, w), m)), dmul(dtrans(t), a), tol, "translate(t, m) = translate(t) * m");
	matNear(c, dm(scale(m, simd(k, w))), dmul(a, dscale(k)), st, "scale(m, s) = m * scale(s)"); matNear(c, dm(scale(simd(k, w), m)), dmul(dscale(k), a), st, "scale(s, m) = scale(s) * m");
}
LAW(model, 4, "general rotation and non-uniform scale")
{
	D3 t = vec3(s, "t", 50), k = anyScale(s, "scale"), p = vec3(s, "p", 10); D4 q = anyRot(s, "q"); float w = s.chance(1, 3) ? 1.0f : junk(s); double len = s.chance(1, 3) ? s.uni(0.25, 4) : 1; s.say("quaternion length", len); c.trivialIf(!generalRot(q) || k[0] == k[1]);
	D4 ql = q; for (auto& v : ql) v *= len; DM want = dmul(dmul(dtrans(t), dquat(qunit(q))), dscale(k));
	f32x4x4 m = calcModel(simd(t, w), Q(ql), simd(k, w)); DM g = dm(m); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.near(g.m[i][j], want.m[i][j], (i == 3 ? dmaxabs(t) : std::fabs(k[i])) * 2e-6, "calcModel");
	matNear(c, dm(calcModel(simd(t, w))), dtrans(t), 0, "calcModel(position)"); matNear(c, dm(calcModel(simd(t, w), Q(ql))), dmul(dtrans(t), dquat(qunit(q))), 2e-6 * (dmaxabs(t) + 1), "calcModel(position, rotation)");
	// a point is scaled, then rotated, then moved
	D3 sp = { p[0] * k[0], p[1] * k[1], p[2] * k[2] }; vecNear(c, d3(m * simd(p, 1.0f)), xyz(dmulv(dquat(qunit(q)), pt(sp))) + t, (dlen(sp) + dlen(t)) * 3e-6, "model matrix * point");
}
LAW(extraction, 5, "general rotation and non-uniform scale")
{
	D3 t = vec3(s, "t", 50), k = posScale(s, "scale"); D4 q = anyRot(s, "q"); c.trivialIf(!generalRot(q) || k[0] == k[1] || k[1] == k[2]); DM rot = dquat(qunit(q)), a = fl(dmul(dmul(dtrans(t), rot), dscale(k))), pure = fl(dmul(dtrans(t), rot)); f32x4x4 m = fm(a), r = fm(pure);
	D3 gs = d3(extractScale(m)); for (int i = 0; i < 3; i++) c.near(gs[i], k[i], k[i] * 2e-6, "extractScale"); float2 s2 = extractScale2(m); c.near(s2.x, k[0], k[0] * 2e-6, "extractScale2 x"); c.near(s2.y, k[1], k[1] * 2e-6, "extractScale2 y");
	matNear(c, dm(extractRotation(m)), rot, 3e-6, "extractRotation"); matNear(c, dm(extractRotationOnly(r)), rot, 1e-6, "extractRotationOnly"); quatNear(c, dq(extractQuat(r)), qunit(q), 2e-6, "extractQuat");
	f32x4 p = simd({ 3.1, -7.7, 0.3 }, 2.0f), sc = p; quat o = Q({ 0.1, -0.9, 0.3, 0.3 }); // what the outputs held before must not matter
	extractTransform(m, p, o, sc); vecNear(c, d3(p), t, dmaxabs(t) * 1e-7, "extractTransform position"); quatNear(c, dq(o), qunit(q), 4e-6, "extractTransform rotation"); D3 xs = d3(sc); for (int i = 0; i < 3; i++) c.near(xs[i], k[i], k[i] * 2e-6, "extractTransform scale");
	p = simd({ 3.1, -7.7, 0.3 }, 2.0f); o = Q({ 0.1, -0.9, 0.3, 0.3 }); extractTransform(r, p, o); vecNear(c, d3(p), t, dmaxabs(t) * 1e-7, "extractTransform position (no scale)"); quatNear(c, dq(o), qunit(q), 4e-6, "extractTransform rotation (no scale)");
	// rebuilt from its parts
	extractTransform(m, p, o, sc); matNear(c, dm(calcModel(p, o, sc)), a, (dmaxabs(k) + dmaxabs(t)) * 1e-5, "calcModel(extractTransform(m))");
}
PBT_MAIN()
