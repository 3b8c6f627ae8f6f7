// Q02: Euler angles against the product of three axis rotations.
#include "xform.hpp"
using namespace pbt; using namespace math;
static const double PI = 3.14159265358979323846;
static D4 euler(double x, double y, double z) { return qmul(qmul(daxis({ 0, 0, 1 }, z), daxis({ 0, 1, 0 }, y)), daxis({ 1, 0, 0 }, x)); }
static void rot(Case& c, D4 g, D4 w, double tol, const char* what) { quatNear(c, g, w, tol, what); }
static double eulerAngle(Src& s, const char* n, double lim) { double a; switch (s.draw(3)) { case 0: a = 0; break; case 1: a = (double)s.irange(-4, 4) * PI / 4; break; default: a = s.uni(-lim, lim); } a = std::min(lim, std::max(-lim, a)); s.say(n, a); return a; }
LAW(from_angles, 3, "all three angles are non-zero")
{
	double x = eulerAngle(s, "pitch", 6.3), y = eulerAngle(s, "yaw", 6.3), z = eulerAngle(s, "roll", 6.3); x = (float)x; y = (float)y; z = (float)z; c.trivialIf(x == 0 || y == 0 || z == 0); D4 want = euler(x, y, z), g = dq(fromEulerAngles(simd(D3{ x, y, z }, junk(s))));
	for (int i = 0; i < 4; i++) c.near(g[i], want[i], 2e-6, "fromEulerAngles = roll about Z * yaw about Y * pitch about X"); double l = 0; for (auto v : g) l += v * v; c.near(std::sqrt(l), 1, 2e-6, "length");
}
// One axis only: the quaternion of that axis and back
LAW(single_axis, 2, "the angle is not zero")
{
	int k = (int)s.draw(2); double lim = k == 1 ? 1.5 : 3.1, a = eulerAngle(s, "angle", lim); a = (float)a; c.trivialIf(a == 0); D3 e{}; e[k] = a; D3 ax{}; ax[k] = 1; quat q = fromEulerAngles(simd(e, junk(s))); rot(c, dq(q), daxis(ax, a), 2e-6, "rotation about one axis"); D3 g = d3(q.extractEulerAngles()); vecNear(c, g, e, 3e-5 + (k == 1 ? 4e-6 / std::cos(a) : 0), "angles of a rotation about one axis");
}
static void extraction(Case& c, D4 a)
{
	D4 u = qunit(a); double sy = -2 * (u[0] * u[2] - u[3] * u[1]); c.assume(std::fabs(sy) < 0.999); // away from gimbal lock
	quat q = Q(a); D4 f = dq(q); float p = q.extractPitch(), y = q.extractYaw(), r = q.extractRoll(); D3 e = d3(q.extractEulerAngles()); c.check(e[0] == p && e[1] == y && e[2] == r, "extractEulerAngles differs from the single angles"); c.check(std::fabs(p) <= 3.1415928f && std::fabs(y) <= 1.5707965f && std::fabs(r) <= 3.1415928f, "angle out of range: pitch %g yaw %g roll %g", p, y, r);
	double lim = 2e-5; rot(c, euler(p, y, r), qunit(f), lim, "rotation of the extracted angles"); rot(c, dq(fromEulerAngles(q.extractEulerAngles())), qunit(f), lim, "fromEulerAngles(extractEulerAngles(q))"); c.near(y, std::asin(-2 * (u[0] * u[2] - u[3] * u[1])), 1e-4, "yaw");
}
LAW(extract_angles, 4, "all three angles are non-zero")
{
	double x = eulerAngle(s, "pitch", 3.14), y = eulerAngle(s, "yaw", 1.5), z = eulerAngle(s, "roll", 3.14); c.trivialIf(x == 0 || y == 0 || z == 0); D4 a = fl(euler(x, y, z)); saw(s, "q", a); if (s.draw(1)) for (auto& v : a) v = -v; c.cls(x == 0 && y * z != 0 ? "zero pitch with yaw and roll" : "other"); extraction(c, a);
	// the angles themselves come back
	quat q = Q(a); double dx = std::remainder(q.extractPitch() - x, 2 * PI), dz = std::remainder(q.extractRoll() - z, 2 * PI); double k = 2e-6 / std::cos(y); c.near(dx, 0, 1e-5 + k, "pitch"); c.near(q.extractYaw(), y, 1e-5 + k, "yaw"); c.near(dz, 0, 1e-5 + k, "roll");
}
LAW(extract_any, 3, "the rotation has four non-zero components") { D4 a = anyRot(s, "q"); c.trivialIf(!generalRot(a)); extraction(c, a); }
// Yaw of a quarter turn: only the sum or difference of pitch and roll is determined, the pitch takes all of it.
LAW(gimbal_lock, 1, "the pitch is not zero")
{
	double h = s.chance(1, 3) ? (double)s.irange(-3, 3) * PI / 8 : s.uni(-1.55, 1.55); bool up = s.draw(1); float x = (float)(std::sin(h) * std::sqrt(0.5)), w = (float)(std::cos(h) * std::sqrt(0.5)); D4 a = { x, up ? w : -w, up ? -x : x, w }; if (s.draw(1)) for (auto& v : a) v = -v; saw(s, "q", a); c.trivialIf(x == 0);
	quat q = Q(a); float p = q.extractPitch(), y = q.extractYaw(); c.near(y, up ? PI / 2 : -PI / 2, 1.5e-3, "yaw"); c.near(std::remainder(p - 2 * h, 2 * PI), 0, 1e-5, "pitch at gimbal lock"); rot(c, euler(p, y, 0), qunit(a), 1e-3, "rotation of pitch and yaw at gimbal lock");
}
LAW(near_lock, 1, "the rotation has four non-zero components")
{
	double x = eulerAngle(s, "pitch", 3.14), y = (s.draw(1) ? 1 : -1) * (PI / 2 - std::exp2(s.uni(-14, -2))), z = eulerAngle(s, "roll", 3.14); s.say("yaw", y); D4 a = fl(euler(x, y, z)); c.trivialIf(!generalRot(a)); quat q = Q(a); D3 e = d3(q.extractEulerAngles()); c.near(e[1], y, 2e-3, "yaw");
	double d = PI / 2 - std::fabs(y); if (d > 0.01) rot(c, euler(e[0], e[1], e[2]), qunit(a), 4e-6 + 1e-6 / (d * d), "rotation of the extracted angles"); for (auto v : e) c.check(std::fabs(v) < 3.1415930f, "angle %g out of range", v);
}
PBT_MAIN()
