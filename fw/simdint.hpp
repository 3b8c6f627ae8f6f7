// Laws of i32x4 and u32x4 (V is the SIMD type, S3/S2 the scalar vectors it converts to).
#pragma once
#include "vecops.hpp"
namespace pbt
{
template<class V, uint32_t X, uint32_t Y, uint32_t Z, uint32_t W> void swi(Case& c, const V& x, const Arr<V>& a)
{
	auto r = VT<V>::get(x.template swizzle<X, Y, Z, W>());
	c.check(r[0] == a[X] && r[1] == a[Y] && r[2] == a[Z] && r[3] == a[W], "swizzle<%u,%u,%u,%u>: got %s", X, Y, Z, W, show(r).c_str());
}
template<class V, uint32_t I> void swiAll(Case& c, const V& x, const Arr<V>& a) { swi<V, I & 3, (I >> 2) & 3, (I >> 4) & 3, (I >> 6) & 3>(c, x, a); if constexpr (I < 255) swiAll<V, I + 1>(c, x, a); }
template<class V, class S4, class S3, class S2> void laneLaw(Src& s, Case& c)
{
	typedef typename VT<V>::T T; auto a = genV<V>(s, "a"); c.trivialIf(!distinct(a)); V x = VT<V>::make(a); T w; gen(s, w);
	typedef Arr<V> A;
	c.check(bits(A{ x.getX(), x.getY(), x.getZ(), x.getW() }, a), "get"); const V cx = x; c.check(bits(A{ cx[0], cx[1], cx[2], cx[3] }, a), "operator[]");
	for (int k = 0; k < 4; k++)
	{
		V y = x; A e = a; e[k] = w; if (k == 0) y.setX(w); else if (k == 1) y.setY(w); else if (k == 2) y.setZ(w); else y.setW(w);
		expectV<V>(c, y, e, "set"); V z = x; z[k] = w; expectV<V>(c, z, e, "operator[]=");
	}
	expectV<V>(c, V(x, w), { a[0], a[1], a[2], w }, "V(xyz,w)"); expectV<V>(c, V(w), { w, w, w, w }, "V(n)"); expectV<V>(c, V(), { 0, 0, 0, 0 }, "V()");
	V v3 = V(a[0], a[1], a[2]); c.check(v3.getX() == a[0] && v3.getY() == a[1] && v3.getZ() == a[2], "V(x,y,z)");
	V u3 = V(S3(a[0], a[1], a[2])); c.check(u3.getX() == a[0] && u3.getY() == a[1] && u3.getZ() == a[2], "V(three components)");
	V u2 = V(S2(a[0], a[1])); c.check(u2.getX() == a[0] && u2.getY() == a[1], "V(two components)"); expectV<V>(c, V(S4(a[0], a[1], a[2], a[3])), a, "V(four components)");
	auto s4 = (S4)x; c.check(bits(VT<S4>::get(s4), a), "conversion to four components"); auto s3 = (S3)x; c.check(s3.x == a[0] && s3.y == a[1] && s3.z == a[2], "conversion to three components");
	auto s2 = (S2)x; c.check(s2.x == a[0] && s2.y == a[1], "conversion to two components"); c.check((T)x == a[0], "conversion to a number");
	V as = x; as = w; expectV<V>(c, as, { w, w, w, w }, "v = n");
	alignas(16) T buf[12]; for (int i = 0; i < 12; i++) buf[i] = (T)(1000 + i); int o = (int)s.draw(4); x.store(buf + o);
	for (int i = 0; i < 12; i++) c.check(buf[i] == (i >= o && i < o + 4 ? a[i - o] : (T)(1000 + i)), "store at offset %d, element %d", o, i);
	expectV<V>(c, V((const T*)(buf + o)), a, "V(const T*)"); alignas(16) T al[4]; x.storeAligned(al); c.check(bits(A{ al[0], al[1], al[2], al[3] }, a), "storeAligned"); V y; y.loadAligned(al); expectV<V>(c, y, a, "loadAligned");
	expectV<V>(c, x.splatX(), { a[0], a[0], a[0], a[0] }, "splatX"); expectV<V>(c, x.splatY(), { a[1], a[1], a[1], a[1] }, "splatY"); expectV<V>(c, x.splatZ(), { a[2], a[2], a[2], a[2] }, "splatZ"); expectV<V>(c, x.splatW(), { a[3], a[3], a[3], a[3] }, "splatW");
	V fw = x; fw.fixW(); expectV<V>(c, fw, { a[0], a[1], a[2], a[2] }, "fixW");
	if (s.draw(7) == 0) swiAll<V, 0>(c, x, a);
}
template<class V> void reduceLaw(Src& s, Case& c)
{
	auto a = genV<V>(s, "a"); c.trivialIf(!distinct(a)); V x = VT<V>::make(a);
	auto mn = std::min(std::min(a[0], a[1]), std::min(a[2], a[3])), mx = std::max(std::max(a[0], a[1]), std::max(a[2], a[3]));
	auto mn3 = std::min(std::min(a[0], a[1]), a[2]), mx3 = std::max(std::max(a[0], a[1]), a[2]);
	c.eqi(min4(x), mn, "min4"); c.eqi(max4(x), mx, "max4"); c.eqi(min3(x), mn3, "min3"); c.eqi(max3(x), mx3, "max3"); c.eqi(min(x), mn, "min"); c.eqi(max(x), mx, "max");
	auto b = genV<V>(s, "b"); V y = VT<V>::make(b); typedef typename VT<V>::T T; expectV<V>(c, bic(x, y), zip<V>(a, b, [](T p, T q) { return (T)(p & ~q); }), "bic");
}
template<class V> void orderLaw(Src& s, Case& c)
{
	auto a = genV<V>(s, "a"), b = genV<V>(s, "b"), d = genV<V>(s, "d"); if (s.draw(1)) for (auto q : { &a, &b, &d }) for (auto& v : *q) if (s.draw(1)) v = (std::decay_t<decltype(v)>)s.irange(-1, 2); for (size_t i = 0; i < a.size(); i++) { if (s.chance(1, 2)) b[i] = a[i]; if (s.chance(1, 2)) d[i] = b[i]; }
	V x = VT<V>::make(a), y = VT<V>::make(b), z = VT<V>::make(d); bool l = isBinaryLess(x, y), g = isBinaryLess(y, x); c.trivialIf(bits(a, b));
	c.check(!(l && g), "isBinaryLess is not asymmetric"); c.check((l || g) == !bits(a, b), "isBinaryLess is not total"); c.check(!isBinaryLess(x, x), "isBinaryLess is not irreflexive");
	if (l && isBinaryLess(y, z)) c.check(isBinaryLess(x, z), "isBinaryLess is not transitive");
}
inline std::string decimal(const std::vector<std::string>& p) { std::string r; for (auto& t : p) { if (!r.empty()) r += " "; r += t; } return r; }
}
