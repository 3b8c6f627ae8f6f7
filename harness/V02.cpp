// V02: every i32x4 operation is the 32-bit two's complement operation on each lane.
#include "simdint.hpp"
using namespace pbt; using namespace math;
LAW(arithmetic, 3, "the lanes are distinct") { integerLaw<i32x4, true>(s, c); }
LAW(comparison, 2, "some lane is less and some is not") { comparisonLaw<i32x4>(s, c); }
LAW(selection, 2, "some lane is clamped") { selectLaw<i32x4>(s, c); }
LAW(lanes, 2, "the lanes are distinct") { laneLaw<i32x4, int4, int3, int2>(s, c); }
LAW(reduction, 2, "the lanes are distinct") { reduceLaw<i32x4>(s, c); }
LAW(order, 1, "the two vectors differ") { orderLaw<i32x4>(s, c); }
LAW(conversion, 1, "some lane is negative")
{
	auto a = genV<i32x4>(s, "a"); bool neg = false; auto x = simd(a); U4 u = arr((u32x4)x); I4 r = arr((i32x4)simd(u)), q = arr(uintAsInt(simd(u)));
	for (int i = 0; i < 4; i++) { neg |= a[i] < 0; c.equ(u[i], (uint32_t)a[i], "(u32x4)i32x4"); c.eqi(r[i], a[i], "i32x4(u32x4)"); c.eqi(q[i], a[i], "uintAsInt"); } c.trivialIf(!neg);
	c.check(toString(x) == decimal({ std::to_string(a[0]), std::to_string(a[1]), std::to_string(a[2]), std::to_string(a[3]) }), "toString");
}
LAW(constants, 0.001, "always") { expectV(c, i32x4::zero, { 0, 0, 0, 0 }, "zero"); expectV(c, i32x4::one, { 1, 1, 1, 1 }, "one"); expectV(c, i32x4::minusOne, { -1, -1, -1, -1 }, "minusOne");
	int m = INT32_MIN, M = INT32_MAX; expectV(c, i32x4::min, { m, m, m, m }, "min"); expectV(c, i32x4::max, { M, M, M, M }, "max"); }
PBT_MAIN()
