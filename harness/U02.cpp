// U02: hexadecimal text against division by sixteen.
#include "pbt.hpp"
#include "math/hex.hpp"
using namespace pbt; using namespace math;
template<class T> static void one(Src& s, Case& c, const char* name)
{
	T v = (T)s.pick({ 0, 1, 2 }); u64 raw = s.chance(1, 3) ? (u64)s.anyU32() : s.draw(~0ull); if (s.chance(1, 4)) raw = (u64)(1ull << s.draw(63)) + s.draw(2) - 1; v = (T)raw; const size_t w = sizeof(T) * 2; size_t n = s.chance(1, 2) ? w : s.draw(40); bool neg = std::is_signed<T>::value && v < 0; if (neg && n > w) n = w;
	u64 bits = (u64)v; if (w < 16) bits &= (1ull << (w * 4)) - 1; if (s.verbose) s.say(fmt("%s 0x%llx length %zu", name, (unsigned long long)bits, n)); c.trivialIf(n == w && bits < 256); c.cls(n < w ? "shorter" : n > w ? "longer" : "full length");
	std::string want; u64 k = bits; for (size_t i = 0; i < n; i++) { want.insert(want.begin(), "0123456789ABCDEF"[k & 15]); k >>= 4; } std::string got = toHex(v, n); c.check(got == want, "toHex is %s, expected %s", got.c_str(), want.c_str()); if (n == w) c.check(toHex(v) == want, "toHex without a length is %s, expected %s", toHex(v).c_str(), want.c_str());
	u64 back = n >= 16 ? bits : n ? bits & ((1ull << (n * 4)) - 1) : 0; if (n && n <= 8) c.equ(toInt32(got), (uint32_t)back, "toInt32"); if (n) { c.equ(toInt64(got), back, "toInt64"); std::string low = got; for (auto& ch : low) ch = (char)tolower(ch); c.equ(toInt64(low), back, "toInt64 of lower case"); c.equ(toInt64("0x" + low), back, "toInt64 of a text with 0x"); if (back <= 0xffffffffull) c.equ(toInt32(low), back, "toInt32 of lower case"); }
}
// Text written by somebody else: any number of digits, in either case, with or without a prefix.
LAW(text, 2, "both cases of letters, or a prefix")
{
	int width = s.draw(1) ? 16 : 8, n = (int)s.range(1, width); bool lo = false, up = false; std::string t, p = s.pick({ "", "0x", "0X" }); u64 v = 0;
	for (int i = 0; i < n; i++) { int d = (int)s.draw(15); bool low = s.draw(1); t += "0123456789ABCDEF0123456789abcdef"[d + 16 * low]; v = v * 16 + d; if (d > 9) (low ? lo : up) = true; } s.say(p + t); c.trivialIf(p.empty() && !(lo && up)); c.cls(n == width ? "all digits" : "fewer digits");
	c.equ(toInt64(p + t), v, "toInt64 of a text"); if (width == 8) c.equ(toInt32(p + t), v, "toInt32 of a text");
}
LAW(hex, 4, "the value exceeds one byte or the length differs from the type's")
{
	switch (s.draw(7)) { case 0: one<uint8_t>(s, c, "uint8"); break; case 1: one<uint16_t>(s, c, "uint16"); break; case 2: one<uint32_t>(s, c, "uint32"); break; case 3: one<uint64_t>(s, c, "uint64"); break; case 4: one<int8_t>(s, c, "int8"); break; case 5: one<int16_t>(s, c, "int16"); break; case 6: one<int32_t>(s, c, "int32"); break; default: one<int64_t>(s, c, "int64"); }
}
PBT_MAIN()
