// V03: every u32x4 operation is the unsigned 32-bit operation on each lane, over the whole range; and the mask tests.
#include "simdint.hpp"
using namespace pbt; using namespace math;
LAW(arithmetic, 3, "the lanes are distinct") { integerLaw<u32x4, false>(s, c); }
LAW(comparison, 2, "some lane is less and some is not") { comparisonLaw<u32x4>(s, c); }
LAW(selection, 2, "some lane is clamped") { selectLaw<u32x4>(s, c); }
LAW(lanes, 2, "the lanes are distinct") { laneLaw<u32x4, uint4, uint3, uint2>(s, c); }
LAW(reduction, 2, "the lanes are distinct") { reduceLaw<u32x4>(s, c); }
LAW(order, 1, "the two vectors differ") { orderLaw<u32x4>(s, c); }
LAW(masks, 2, "the mask is mixed")
{
	int m = (int)s.draw(15); s.say("mask", m); U4 a; int n = 0; for (int i = 0; i < 4; i++) { a[i] = m >> i & 1 ? 0xffffffffu : 0; n += m >> i & 1; }
	auto x = simd(a); c.trivialIf(n == 0 || n == 4); c.eqi(getTrues(x), m, "getTrues"); c.check(areAllTrue(x) == (n == 4), "areAllTrue"); c.check(areAllFalse(x) == (n == 0), "areAllFalse");
	c.check(areAnyTrue(x) == (n != 0), "areAnyTrue"); c.check(areAnyFalse(x) == (n != 4), "areAnyFalse");
	auto y = uint4(a[0], a[1], a[2], a[3]); c.check(areAllTrue(y) == (n == 4) && areAllFalse(y) == (n == 0) && areAnyTrue(y) == (n != 0) && areAnyFalse(y) == (n != 4), "uint4 mask tests"); c.eqi(getTrues(y), m, "getTrues(uint4)");
	int m3 = m & 7, n3 = (m & 1) + (m >> 1 & 1) + (m >> 2 & 1); auto z = uint3(a[0], a[1], a[2]); c.check(areAllTrue(z) == (n3 == 3) && areAllFalse(z) == (n3 == 0) && areAnyTrue(z) == (n3 != 0) && areAnyFalse(z) == (n3 != 3), "uint3 mask tests"); c.eqi(getTrues(z), m3, "getTrues(uint3)");
	int m2 = m & 3, n2 = (m & 1) + (m >> 1 & 1); auto w = uint2(a[0], a[1]); c.check(areAllTrue(w) == (n2 == 2) && areAllFalse(w) == (n2 == 0) && areAnyTrue(w) == (n2 != 0) && areAnyFalse(w) == (n2 != 2), "uint2 mask tests"); c.eqi(getTrues(w), m2, "getTrues(uint2)");
	// any control value counts by its top bit, as in select
	auto h = genV<u32x4>(s, "bits"); int tb = 0; for (int i = 0; i < 4; i++) tb |= (int)(h[i] >> 31) << i; c.eqi(getTrues(simd(h)), tb, "getTrues of any lanes"); c.eqi(getTrues(uint4(h[0], h[1], h[2], h[3])), tb, "getTrues of any uint4"); c.eqi(getTrues(uint3(h[0], h[1], h[2])), tb & 7, "getTrues of any uint3"); c.eqi(getTrues(uint2(h[0], h[1])), tb & 3, "getTrues of any uint2");
	// every type tests all the bits of a component, as documented
	{ U4 q = h; for (auto& e : q) if (s.chance(1, 2)) e = s.draw(1) ? 0xffffffffu : 0; uint32_t a2 = q[0] & q[1], o2 = q[0] | q[1], a3 = a2 & q[2], o3 = o2 | q[2], a4 = a3 & q[3], o4 = o3 | q[3]; uint2 q2(q[0], q[1]); uint3 q3(q[0], q[1], q[2]); uint4 q4(q[0], q[1], q[2], q[3]); const uint32_t T = 0xffffffffu;
	c.check(areAllTrue(q2) == (a2 == T) && areAnyFalse(q2) == (a2 != T) && areAllFalse(q2) == !o2 && areAnyTrue(q2) == !!o2, "tests of any uint2"); c.check(areAllTrue(q3) == (a3 == T) && areAnyFalse(q3) == (a3 != T) && areAllFalse(q3) == !o3 && areAnyTrue(q3) == !!o3, "tests of any uint3"); c.check(areAllTrue(q4) == (a4 == T) && areAnyFalse(q4) == (a4 != T) && areAllFalse(q4) == !o4 && areAnyTrue(q4) == !!o4, "tests of any uint4");
	auto w4 = simd(q); c.check(areAllTrue(w4) == (a4 == T) && areAnyFalse(w4) == (a4 != T) && areAllFalse(w4) == !o4 && areAnyTrue(w4) == !!o4, "tests of any u32x4"); }
	auto k = genV<u32x4>(s, "control"), t = genV<u32x4>(s, "t"), f = genV<u32x4>(s, "f"); U4 r = arr(select(simd(k), simd(t), simd(f)));
	for (int i = 0; i < 4; i++) c.equ(r[i], k[i] & 0x80000000u ? t[i] : f[i], "select by top bit");
}
LAW(text, 0.5, "the lanes are distinct") { auto a = genV<u32x4>(s, "a"); c.trivialIf(!distinct(a)); c.check(toString(simd(a)) == decimal({ std::to_string(a[0]), std::to_string(a[1]), std::to_string(a[2]), std::to_string(a[3]) }), "toString"); }
LAW(constants, 0.001, "always") { expectV(c, u32x4::zero, { 0, 0, 0, 0 }, "zero"); expectV(c, u32x4::one, { 1, 1, 1, 1 }, "one"); uint32_t M = UINT32_MAX; expectV(c, u32x4::max, { M, M, M, M }, "max"); }
PBT_MAIN()
