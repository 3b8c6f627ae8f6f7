// U04: flag operators of enumerations of every width, against integer arithmetic.
#include "pbt.hpp"
#include "math/flags.hpp"
using namespace pbt; using namespace math;
enum class F8 : uint8_t { None = 0 }; enum class F16 : uint16_t { None = 0 }; enum class F32 : uint32_t { None = 0 }; enum class F64 : uint64_t { None = 0 }; enum class S32 : int32_t { None = 0 };
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F8) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F16) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F32) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F64) DECLARE_ENUM_CLASS_FLAG_OPERATORS(S32)
template<class E> static void run(Src& s, Case& c)
{
	typedef typename std::underlying_type<E>::type T; auto gen = [&]() { T v = (T)s.draw(~0ull); switch (s.draw(4)) { case 0: v = 0; break; case 1: v = (T)((u64)1 << s.draw(sizeof(T) * 8 - 1)); break; case 2: v = (T)~(T)((u64)1 << s.draw(sizeof(T) * 8 - 1)); break; } return v; };
	T a = gen(), b = gen(); if (s.chance(1, 4)) b = (T)(a & b); if (s.chance(1, 8)) b = a; E x = (E)a, y = (E)b; if (s.verbose) s.say(fmt("a=0x%llx b=0x%llx", (unsigned long long)a, (unsigned long long)b)); c.trivialIf(!a || !b); c.cls((a & b) ? "common flags" : "no common flag");
	c.check((T)(x | y) == (T)(a | b), "a | b"); c.check((T)(x & y) == (T)(a & b), "a & b"); c.check((T)(x ^ y) == (T)(a ^ b), "a ^ b"); c.check((T)~x == (T)~a, "~a"); c.check((T)!x == (T)!a, "!a");
	E t = x; E& r1 = (t |= y); c.check(&r1 == &t && (T)t == (T)(a | b), "a |= b"); t = x; E& r2 = (t &= y); c.check(&r2 == &t && (T)t == (T)(a & b), "a &= b"); t = x; E& r3 = (t ^= y); c.check(&r3 == &t && (T)t == (T)(a ^ b), "a ^= b");
	c.check(hasAnyFlag(x, y) == ((T)(a & b) != 0), "hasAnyFlag is %d", (T)(a & b) == 0); c.check(hasOneFlag(x, y) == ((T)(a & (T)~b) == 0), "hasOneFlag is %d", (T)(a & (T)~b) != 0);
}
LAW(flags, 4, "both values have a flag set")
{
	switch (s.draw(4)) { case 0: run<F8>(s, c); break; case 1: run<F16>(s, c); break; case 2: run<F32>(s, c); break; case 3: run<F64>(s, c); break; default: run<S32>(s, c); }
}
PBT_MAIN()
