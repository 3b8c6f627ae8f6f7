// U01: Version against its four bytes.
#include "pbt.hpp"
#include "math/version.hpp"
using namespace pbt; using namespace math;
static uint8_t part(Src& s, const char* n) { uint8_t v = s.chance(1, 3) ? s.pick<uint8_t>({ 0, 1, 127, 128, 254, 255, 9, 10, 99, 100 }) : (uint8_t)s.draw(255); s.say(n, v); return v; }
typedef std::array<uint8_t, 4> B4;
static B4 parts(Src& s, const char* n) { s.say(n); B4 r; r[0] = part(s, "major"); r[1] = part(s, "minor"); r[2] = part(s, "patch"); r[3] = part(s, "build"); return r; }
static Version make(const B4& b) { return Version(b[0], b[1], b[2], b[3]); }
LAW(value, 4, "the four parts are not all equal")
{
	B4 b = parts(s, "v"); Version v = make(b); c.trivialIf(b[0] == b[1] && b[1] == b[2] && b[2] == b[3]);
	c.equ(v.major, b[0], "major"); c.equ(v.minor, b[1], "minor"); c.equ(v.patch, b[2], "patch"); c.equ(v.build, b[3], "build"); const Version& k = v; for (int i = 0; i < 4; i++) { c.equ(v[i], b[i], "operator[]"); c.equ(k[i], b[i], "const operator[]"); }
	uint32_t n = ((uint32_t)b[0] << 24) | ((uint32_t)b[1] << 16) | ((uint32_t)b[2] << 8) | b[3]; c.equ((uint32_t)v, n, "packed number"); Version u(n); c.check(u == v && u.major == b[0] && u.minor == b[1] && u.patch == b[2] && u.build == b[3], "the version of the packed number differs");
	std::string t[4]; for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) t[i] += (j ? "." : "") + std::to_string(b[j]); c.check(v.toString1() == t[0] && v.toString2() == t[1] && v.toString3() == t[2] && v.toString4() == t[3], "toString4 is %s, expected %s", v.toString4().c_str(), t[3].c_str());
	Version d1(b[0], b[1], b[2]), d2(b[0], b[1]), z; c.check(d1.build == 0 && d1.patch == b[2] && d2.patch == 0 && d2.minor == b[1] && (uint32_t)z == 0, "default parts are not zero");
	int i = (int)s.draw(3); uint8_t x = part(s, "written"); v[i] = x; b[i] = x; c.check(v == make(b), "writing through operator[] changes another part");
}
LAW(order, 4, "the versions agree in the first part and differ in a later one")
{
	B4 a = parts(s, "a"), b = parts(s, "b"); int same = (int)s.draw(4); for (int i = 0; i < same; i++) b[i] = a[i]; if (s.draw(1) && same < 4) b[same] = (uint8_t)(a[same] + 1); Version x = make(a), y = make(b); c.trivialIf(!same || a == b); c.cls(a == b ? "equal" : "different");
	c.check((x < y) == (a < b), "< is %d", a >= b); c.check((x > y) == (a > b), "> is %d", a <= b); c.check((x <= y) == (a <= b), "<= is %d", a > b); c.check((x >= y) == (a >= b), ">= is %d", a < b); c.check((x == y) == (a == b), "== is %d", a != b); c.check((x != y) == (a != b), "!= is %d", a == b);
}
PBT_MAIN()
