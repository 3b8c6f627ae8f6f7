// U05: mip counts and sizes against repeated halving.
#include "vecops.hpp"
using namespace pbt; using namespace math;
static uint32_t size(Src& s, const char* n) { uint32_t v = s.anyU32(); if (s.draw(1)) v = (uint32_t)((1ull << s.draw(31)) + s.draw(2)) - 1u; if (!v) v = 1; s.say(n, v); return v; }
static uint32_t count(uint32_t v) { uint32_t n = 0; while (v) { n++; v >>= 1; } return n; }
LAW(mips, 4, "the largest size is at least 4")
{
	uint32_t x = size(s, "x"), y = size(s, "y"), z = size(s, "z"), w = s.anyU32(); int equal = (int)s.draw(4); if (equal == 0) y = z = x; if (equal == 1) { y = 1 + y % x; z = 1 + z % x; } uint32_t m2 = std::max(x, y), m3 = std::max(m2, z); c.trivialIf(m3 < 4); c.cls(m3 >= 1u << 21 ? "large" : "small");
	c.equ(calcMipCount(x), count(x), "calcMipCount"); c.equ(calcMipCount(uint2(x, y)), count(m2), "calcMipCount(uint2)"); c.equ(calcMipCount(uint3(x, y, z)), count(m3), "calcMipCount(uint3)"); c.equ(calcMipCount3(u32x4(x, y, z, w)), count(m3), "calcMipCount3");
	uint32_t mip = (uint32_t)s.draw(count(m3) - 1); s.say("mip", mip); auto at = [&](uint32_t v) { uint32_t k = v; for (uint32_t i = 0; i < mip; i++) k >>= 1; return k ? k : 1u; };
	c.equ(calcSizeAtMip(x, (uint8)mip), at(x), "calcSizeAtMip"); uint2 a = calcSizeAtMip(uint2(x, y), (uint8)mip); c.check(a.x == at(x) && a.y == at(y), "calcSizeAtMip(uint2) is %u %u", a.x, a.y); uint3 b = calcSizeAtMip(uint3(x, y, z), (uint8)mip); c.check(b.x == at(x) && b.y == at(y) && b.z == at(z), "calcSizeAtMip(uint3) is %u %u %u", b.x, b.y, b.z);
	u32x4 v = calcSizeAtMip3(u32x4(x, y, z, w), (uint8)mip); c.check(v.getX() == at(x) && v.getY() == at(y) && v.getZ() == at(z), "calcSizeAtMip3 is %u %u %u", v.getX(), v.getY(), v.getZ());
	// the last level of a chain, and only that one, has size one
	uint8 n = calcMipCount(uint3(x, y, z)); uint3 last = calcSizeAtMip(uint3(x, y, z), (uint8)(n - 1)); c.check(last.x == 1 && last.y == 1 && last.z == 1, "the last level is %u %u %u", last.x, last.y, last.z); if (n > 1) { uint3 p = calcSizeAtMip(uint3(x, y, z), (uint8)(n - 2)); c.check(std::max(p.x, std::max(p.y, p.z)) > 1, "the level before the last one has size one"); }
}
PBT_MAIN()
