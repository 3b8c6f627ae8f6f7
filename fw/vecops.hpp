// Laws shared by every vector type: component i of an operation is the scalar operation on component i.
#pragma once
#include "math.hpp"
namespace pbt
{
// Traits: how to make a vector of N components of T and how to read its components.
template<class V> struct VT;
#define PBT_VT2(V, E) template<> struct VT<V> { typedef E T; static constexpr int N = 2; static V make(const std::array<E, 2>& a) { return V(a[0], a[1]); } static std::array<E, 2> get(const V& v) { return { v.x, v.y }; } };
#define PBT_VT3(V, E) template<> struct VT<V> { typedef E T; static constexpr int N = 3; static V make(const std::array<E, 3>& a) { return V(a[0], a[1], a[2]); } static std::array<E, 3> get(const V& v) { return { v.x, v.y, v.z }; } };
#define PBT_VT4(V, E) template<> struct VT<V> { typedef E T; static constexpr int N = 4; static V make(const std::array<E, 4>& a) { return V(a[0], a[1], a[2], a[3]); } static std::array<E, 4> get(const V& v) { return { v.x, v.y, v.z, v.w }; } };
PBT_VT2(math::float2, float) PBT_VT3(math::float3, float) PBT_VT4(math::float4, float)
PBT_VT2(math::int2, int32_t) PBT_VT3(math::int3, int32_t) PBT_VT4(math::int4, int32_t)
PBT_VT2(math::uint2, uint32_t) PBT_VT3(math::uint3, uint32_t) PBT_VT4(math::uint4, uint32_t)
template<> struct VT<math::i32x4> { typedef int32_t T; static constexpr int N = 4; static math::i32x4 make(const I4& a) { return simd(a); } static I4 get(const math::i32x4& v) { return arr(v); } };
template<> struct VT<math::u32x4> { typedef uint32_t T; static constexpr int N = 4; static math::u32x4 make(const U4& a) { return simd(a); } static U4 get(const math::u32x4& v) { return arr(v); } };

template<class V> using Arr = std::array<typename VT<V>::T, VT<V>::N>;
template<class A> std::string show(const A& a) { std::string t = "("; for (size_t i = 0; i < a.size(); i++) t += fmt(i ? ",%.10g" : "%.10g", (double)a[i]); return t + ")"; }
template<class A> bool bits(const A& a, const A& b)
{
	for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
	return true;
}
template<class V> void expectV(Case& c, const V& got, const Arr<V>& want, const char* what)
{
	auto g = VT<V>::get(got); if (!bits(g, want)) c.fail(fmt("%s: got %s, expected %s", what, show(g).c_str(), show(want).c_str()));
}
template<class V, class M> void expectM(Case& c, const M& got, const std::array<bool, VT<V>::N>& want, const char* what)
{
	auto g = VT<M>::get(got);
	for (int i = 0; i < VT<V>::N; i++) if (g[i] != (want[i] ? 0xffffffffu : 0u)) c.fail(fmt("%s: component %d of the mask is 0x%x", what, i, g[i]));
}
inline void gen(Src& s, int32_t& v) { v = s.anyI32(); }
inline void gen(Src& s, uint32_t& v) { v = s.anyU32(); }
inline void gen(Src& s, float& v) { v = s.anyFloat(); }
template<class V> Arr<V> genV(Src& s, const char* n) { Arr<V> a; for (auto& v : a) gen(s, v); saw(s, n, a); return a; }
template<class A> bool distinct(const A& a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) if (a[i] == a[j]) return false; return true; }
template<class V, class F> Arr<V> zip(const Arr<V>& a, const Arr<V>& b, F f) { Arr<V> r; for (int i = 0; i < VT<V>::N; i++) r[i] = f(a[i], b[i]); return r; }
template<class V, class F> std::array<bool, VT<V>::N> zipb(const Arr<V>& a, const Arr<V>& b, F f) { std::array<bool, VT<V>::N> r; for (int i = 0; i < VT<V>::N; i++) r[i] = f(a[i], b[i]); return r; }

// v op w, v op n, n op v, v op= w, v op= n
#define PBT_BIN(op, F) { auto f = F; expectV<V>(c, x op y, zip<V>(a, b, f), "v " #op " w"); expectV<V>(c, x op n, zip<V>(a, nn, f), "v " #op " n"); \
	expectV<V>(c, n op y, zip<V>(nn, b, f), "n " #op " v"); V t = x; V& r1 = (t op##= y); expectV<V>(c, t, zip<V>(a, b, f), "v " #op "= w"); c.check(&r1 == &t, #op "= does not return its operand"); \
	t = x; t op##= n; expectV<V>(c, t, zip<V>(a, nn, f), "v " #op "= n"); PBT_OWN(op, f, expectV<V>) }
// the right operand is the vector itself, or one of its own components
#define PBT_OWN(op, f, expect) { V o = y; o op##= o; expect(c, o, zip<V>(b, b, f), "v " #op "= v"); \
	for (int k = 0; k < VT<V>::N; k++) { Arr<V> bk; bk.fill(b[k]); o = y; o op##= o[k]; expect(c, o, zip<V>(b, bk, f), "v " #op "= v[k]"); } }
#define PBT_CMP(op) { auto f = [](T p, T q) { return p op q; }; expectM<V>(c, x op y, zipb<V>(a, b, f), "v " #op " w"); \
	expectM<V>(c, x op n, zipb<V>(a, nn, f), "v " #op " n"); expectM<V>(c, n op y, zipb<V>(nn, b, f), "n " #op " v"); }

template<class V> void comparisonLaw(Src& s, Case& c)
{
	typedef typename VT<V>::T T; constexpr int N = VT<V>::N;
	auto a = genV<V>(s, "a"), b = genV<V>(s, "b"); for (int i = 0; i < N; i++) if (s.chance(1, 3)) b[i] = a[i]; saw(s, "b'", b);
	T n = s.chance(1, 2) ? b[s.draw(N - 1)] : a[s.draw(N - 1)]; Arr<V> nn; nn.fill(n); V x = VT<V>::make(a), y = VT<V>::make(b);
	int lt = 0; for (int i = 0; i < N; i++) lt += a[i] < b[i]; c.trivialIf(lt == 0 || lt == N);
	PBT_CMP(<) PBT_CMP(>) PBT_CMP(<=) PBT_CMP(>=)
	bool all = bits(a, b), alln = bits(a, nn);
	c.check((x == y) == all && (x != y) == !all, "== and != of two vectors"); c.check((x == n) == alln && (x != n) == !alln && (n == x) == alln && (n != x) == !alln, "== and != with a number");
	{ T m = a[s.draw(N - 1)]; Arr<V> h; h.fill(m); int k = (int)s.draw(N - 1), kind = (int)s.draw(2); if (kind == 1) h[k] = h[k] + 1; else if (kind == 2) h[k] = b[k]; bool one = true; for (auto v : h) one &= v == m; V z = VT<V>::make(h); c.check((z == m) == one && (m == z) == one && (z != m) == !one && (m != z) == !one, "a vector of one value, or all but one component, against that number"); }
	auto e = a; if (s.chance(2, 3)) { int k = (int)s.draw(N - 1); e[k] = e[k] + 1; }
	bool same = bits(a, e); V z = VT<V>::make(e); c.check((x == z) == same && (x != z) == !same, "one-component difference");
	expectM<V>(c, equal(x, y), zipb<V>(a, b, [](T p, T q) { return p == q; }), "equal"); expectM<V>(c, notEqual(x, y), zipb<V>(a, b, [](T p, T q) { return p != q; }), "notEqual");
}
template<class V> void selectLaw(Src& s, Case& c)
{
	typedef typename VT<V>::T T; constexpr int N = VT<V>::N;
	auto a = genV<V>(s, "a"), b = genV<V>(s, "b"), v = genV<V>(s, "v"); V x = VT<V>::make(a), y = VT<V>::make(b);
	expectV<V>(c, select(x < y, x, y), zip<V>(a, b, [](T p, T q) { return p < q ? p : q; }), "select(a<b,a,b)");
	expectV<V>(c, select(x < y, VT<V>::make(v), x), [&] { Arr<V> r; for (int i = 0; i < N; i++) r[i] = a[i] < b[i] ? v[i] : a[i]; return r; }(), "select(a<b,v,a)");
	expectV<V>(c, min(x, y), zip<V>(a, b, [](T p, T q) { return std::min(p, q); }), "min"); expectV<V>(c, max(x, y), zip<V>(a, b, [](T p, T q) { return std::max(p, q); }), "max");
	Arr<V> lo = zip<V>(a, b, [](T p, T q) { return std::min(p, q); }), hi = zip<V>(a, b, [](T p, T q) { return std::max(p, q); }), w; bool in = true;
	for (int i = 0; i < N; i++) { w[i] = v[i] < lo[i] ? lo[i] : v[i] > hi[i] ? hi[i] : v[i]; in &= w[i] == v[i]; }
	c.trivialIf(in); expectV<V>(c, clamp(VT<V>::make(v), VT<V>::make(lo), VT<V>::make(hi)), w, "clamp");
}
// +, -, *, /, %, &, |, ^, <<, >> and unary operators of integer vectors, with wrap-around
template<class V, bool NEG> void integerLaw(Src& s, Case& c)
{
	typedef typename VT<V>::T T; constexpr int N = VT<V>::N; constexpr bool SIGNED = std::is_signed<T>::value;
	auto a = genV<V>(s, "a"), b = genV<V>(s, "b"); T n; gen(s, n); if (s.chance(1, 2)) n = (T)s.draw(20); s.say("n", (double)n);
	c.trivialIf(!distinct(a)); V x = VT<V>::make(a), y = VT<V>::make(b); Arr<V> nn; nn.fill(n);
	typedef uint32_t U;
	PBT_BIN(+, ([](T p, T q) { return (T)((U)p + (U)q); })) PBT_BIN(-, ([](T p, T q) { return (T)((U)p - (U)q); })) PBT_BIN(*, ([](T p, T q) { return (T)((U)p * (U)q); }))
	PBT_BIN(&, ([](T p, T q) { return (T)(p & q); })) PBT_BIN(|, ([](T p, T q) { return (T)(p | q); })) PBT_BIN(^, ([](T p, T q) { return (T)(p ^ q); }))
	expectV<V>(c, !x, zip<V>(a, a, [](T p, T) { return (T)!p; }), "!v"); expectV<V>(c, ~x, zip<V>(a, a, [](T p, T) { return (T)~p; }), "~v");
	if constexpr (NEG) expectV<V>(c, -x, zip<V>(a, a, [](T p, T) { return (T)(0u - (U)p); }), "-v");
	// division by zero and INT32_MIN / -1 are outside the domain
	{ constexpr T MIN = std::numeric_limits<T>::min(); bool low = n == MIN; for (int i = 0; i < N; i++) low |= a[i] == MIN || b[i] == MIN; for (auto& v : b) { if (s.chance(1, 6)) v = SIGNED && !low ? (T)-1 : 1; if (v == 0 || (SIGNED && low && v == (T)-1)) v = 3; } if (n == 0 || (SIGNED && low && n == (T)-1)) n = 5; }
	saw(s, "divisor", b); s.say("n'", (double)n); y = VT<V>::make(b); nn.fill(n);
	PBT_BIN(/, ([](T p, T q) { return (T)(p / q); })) PBT_BIN(%, ([](T p, T q) { return (T)(p % q); }))
	for (auto& v : b) v = (T)s.draw(31); n = (T)s.draw(31); saw(s, "shift", b); y = VT<V>::make(b); nn.fill(n);
	auto shl = [](T p, T q) { return (T)((U)p << q); }; auto shr = [](T p, T q) { return (T)(p >> q); };
	PBT_BIN(<<, shl) PBT_BIN(>>, shr)
	gen(s, n); s.say("shifted number", (double)n); nn.fill(n); expectV<V>(c, n << y, zip<V>(nn, b, shl), "n << v"); expectV<V>(c, n >> y, zip<V>(nn, b, shr), "n >> v");
}
} // namespace pbt
