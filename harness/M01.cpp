// M01: matrix construction, access and algebra against column-major double arithmetic.
#include "vecops.hpp"
#include "math/matrix.hpp"
using namespace pbt; using namespace math;
// Traits: number of columns and rows; entries are handed over as [column][row] of a 4x4 double matrix.
template<class M> struct MT;
#define MTR(M, C, R) template<> struct MT<M> { static constexpr int NC = C, NR = R; static constexpr const char* name = #M; };
MTR(float2x2, 2, 2) MTR(float3x3, 3, 3) MTR(float4x3, 4, 3) MTR(float4x4, 4, 4) MTR(f32x4x4, 4, 4)
template<class M> static DM get(const M& m)
{
	DM r{}; constexpr int C = MT<M>::NC, R = MT<M>::NR; float f[C * R]; if (sizeof(M) != sizeof f) throw Fail{ fmt("a %dx%d matrix has %zu bytes", C, R, sizeof(M)) }; memcpy(f, &m, sizeof f);
	for (int i = 0; i < C; i++) for (int j = 0; j < R; j++) r.m[i][j] = f[i * R + j];
	return r;
}
template<class M> static M make(const DM& a)
{
	constexpr int C = MT<M>::NC, R = MT<M>::NR; float f[C * R]; for (int i = 0; i < C; i++) for (int j = 0; j < R; j++) f[i * R + j] = (float)a.m[i][j];
	M m; memcpy((void*)&m, f, sizeof f); return m;
}
// Sixteen float entries: all distinct small integers (any sum of products is exact), reals, or sparse.
static DM entries(Src& s, const char* n)
{
	DM a; int kind = (int)s.draw(4); double big = kind == 4 ? std::exp2((double)s.irange(-25, 25)) : 1;
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
		a.m[i][j] = kind == 0 ? (double)s.irange(-40, 40) : kind == 1 ? (float)s.uni(-4, 4) : kind == 2 ? (s.chance(1, 2) ? 0.0 : (double)s.irange(-3, 3)) : kind == 4 ? (float)(s.uni(-1, 1) * big) : (float)(s.uni(-1, 1) * std::exp2((double)s.irange(-12, 12)));
	if (s.chance(1, 10)) { int i = (int)s.draw(3), j = (int)s.draw(3); for (int k = 0; k < 4; k++) a.m[i][k] = a.m[j][k]; } if (s.chance(1, 10)) { int i = (int)s.draw(3), j = (int)s.draw(3); double f = s.draw(1) ? 1 : -1; for (int k = 0; k < 4; k++) a.m[k][i] = f * a.m[k][j]; }
	if (s.chance(1, 5)) shaped(s, a);
	if (s.verbose) { std::string t = std::string(n) + "=columns"; for (int i = 0; i < 4; i++) { t += "("; for (int j = 0; j < 4; j++) t += fmt(j ? ",%.9g" : "%.9g", a.m[i][j]); t += ")"; } s.say(t); }
	return a;
}
static DM cut(const DM& a, int nc, int nr) { DM r{}; for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++) r.m[i][j] = a.m[i][j]; return r; }
static DM dT(const DM& a) { DM r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = a.m[j][i]; return r; }
static bool asym(const DM& a) { for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) if (a.m[i][j] == a.m[j][i]) return false; return true; }
template<class M, class F> static void each(Case& c, const M& got, F want, const char* op, double rel = 0, const DM* mag = nullptr, int nr = MT<M>::NR, int nc = MT<M>::NC)
{
	DM g = get(got);
	for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++)
		if (double w = want(i, j), tol = mag ? mag->m[i][j] * rel : 0; !(g.m[i][j] == w || std::fabs(g.m[i][j] - w) <= tol)) c.near(g.m[i][j], w, tol, fmt("%s of %s, column %d row %d", op, MT<M>::name, i, j).c_str());
}
template<class V> static void eachV(Case& c, const V& got, const D4& want, const D4& mag, const char* op, int n)
{
	float f[4]; memcpy(f, &got, sizeof(V) < 16 ? sizeof(V) : 16); for (int i = 0; i < n; i++) if (!(std::fabs(f[i] - want[i]) <= mag[i] * 8e-7)) c.near(f[i], want[i], mag[i] * 8e-7, fmt("%s, component %d", op, i).c_str());
}
static D4 pick4(const DM& a, int col) { return { a.m[col][0], a.m[col][1], a.m[col][2], a.m[col][3] }; }

template<class M> static void elementwise(Src& s, Case& c)
{
	DM a = cut(entries(s, "a"), MT<M>::NC, MT<M>::NR); float n = (float)s.irange(-9, 9); if (s.draw(1)) n = s.real(-3, 3); if (s.chance(1, 8)) n = (float)(s.uni(-1, 1) * std::exp2((double)s.irange(-60, 60))); s.say("n", n); M x = make<M>(a);
#define EW(op) { auto f = [&](int i, int j) { return (double)((float)a.m[i][j] op n); }; each(c, x op n, f, "m " #op " n"); M t = x; M& r = (t op##= n); each(c, t, f, "m " #op "= n"); c.check(&r == &t, #op "= returns another object"); }
	EW(+) EW(-) EW(*)
	float n0 = n; if (n == 0) n = 0.75f; auto q = [&](int i, int j) { return (double)((float)a.m[i][j] / n); }; DM mag = dabs(a); for (auto& k : mag.m) for (auto& v : k) v /= std::fabs(n);
	each(c, x / n, q, "m / n", 3e-7, &mag); M t = x; M& r = (t /= n); each(c, t, q, "m /= n", 3e-7, &mag); c.check(&r == &t, "/= returns another object");
	{	// the number is one of the entries of the matrix itself
		int k = (int)s.draw(MT<M>::NC - 1), l = (int)s.draw(MT<M>::NR - 1); float e = (float)a.m[k][l];
#define OWN(op) { M o = x; o op##= o[k][l]; each(c, o, [&](int i, int j) { return (double)((float)a.m[i][j] op e); }, "m " #op "= m[k][l]"); }
		OWN(+) OWN(-) OWN(*) if (e != 0) { DM om = dabs(a); for (auto& p : om.m) for (auto& v : p) v /= std::fabs(e); M o = x; o /= o[k][l]; each(c, o, [&](int i, int j) { return (double)((float)a.m[i][j] / e); }, "m /= m[k][l]", 3e-7, &om); }
	}
	n = n0; M e = M(n); each(c, e, [&](int, int) { return (double)n; }, "constructor from a number");
	each(c, M::zero, [&](int, int) { return 0.0; }, "zero"); each(c, M::one, [&](int, int) { return 1.0; }, "one"); each(c, M::minusOne, [&](int, int) { return -1.0; }, "minusOne");
	each(c, M::identity, [&](int i, int j) { return i == j ? 1.0 : 0.0; }, "identity");
	// equality: exactly when every entry is the same
	M y = x; c.check(y == x && !(y != x), "a copy of a %s is not equal", MT<M>::name);
	int i = (int)s.draw(MT<M>::NC - 1), j = (int)s.draw(MT<M>::NR - 1); DM b = a; if (s.draw(1)) b.m[i][j] = std::nextafter((float)b.m[i][j], 1e30f); else b.m[i][j] = (float)b.m[i][j] + 64.0f; if (b.m[i][j] == a.m[i][j]) b.m[i][j] = 1 - b.m[i][j]; y = make<M>(b); c.check(!(y == x) && y != x, "%s with another entry at column %d row %d is equal", MT<M>::name, i, j);
	// element access
	for (int k = 0; k < MT<M>::NC; k++)
	{
		const M& cx = x; auto col = cx[k]; float f[4] = {}; memcpy(f, &col, sizeof(float) * MT<M>::NR); auto& rcol = x[k]; float g[4] = {}; memcpy(g, &rcol, sizeof(float) * MT<M>::NR);
		for (int l = 0; l < MT<M>::NR; l++) { c.eqf(f[l], (float)a.m[k][l], "const operator[]"); c.eqf(g[l], (float)a.m[k][l], "operator[]"); }
	}
	int k = (int)s.draw(MT<M>::NC - 1); float w[4] = { 101, 102, 103, 104 }; memcpy((void*)&x[k], w, sizeof(float) * MT<M>::NR); each(c, x, [&](int p, int l) { return p == k ? 101.0 + l : a.m[p][l]; }, "write through operator[]");
}
template<class M> static void leftNumber(Src& s, Case& c)
{
	DM a = cut(entries(s, "a"), MT<M>::NC, MT<M>::NR); for (auto& k : a.m) for (auto& v : k) if (v == 0) v = 0.5; float n = s.real(-8, 8); if (s.chance(1, 6)) n = s.draw(1) ? 0.0f : (float)(s.uni(-1, 1) * std::exp2((double)s.irange(-60, 60))); s.say("n", n); M x = make<M>(a); c.trivialIf(!asym(a));
	each(c, n + x, [&](int i, int j) { return (double)(n + (float)a.m[i][j]); }, "n + m"); each(c, n - x, [&](int i, int j) { return (double)(n - (float)a.m[i][j]); }, "n - m");
	each(c, n * x, [&](int i, int j) { return (double)(n * (float)a.m[i][j]); }, "n * m");
	DM mag; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) mag.m[i][j] = std::fabs(n / a.m[i][j]); each(c, n / x, [&](int i, int j) { return (double)(n / (float)a.m[i][j]); }, "n / m", 3e-7, &mag);
}
LAW(elementwise, 4, "the entries are not symmetric")
{
	switch (s.draw(4)) { case 0: elementwise<float2x2>(s, c); break; case 1: elementwise<float3x3>(s, c); break; case 2: elementwise<float4x3>(s, c); break; case 3: elementwise<float4x4>(s, c); break; default: elementwise<f32x4x4>(s, c); }
}
LAW(number_on_the_left, 2, "the entries are not symmetric")
{
	switch (s.draw(3)) { case 0: leftNumber<float2x2>(s, c); break; case 1: leftNumber<float3x3>(s, c); break; case 2: leftNumber<float4x3>(s, c); break; default: leftNumber<float4x4>(s, c); }
}
LAW(construction, 3, "all entries differ from their transposed entry")
{
	DM a = entries(s, "a"); c.trivialIf(!asym(a)); float m[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = (float)a.m[i][j];
	auto A = [&](int i, int j) { return a.m[i][j]; };
	float2 a2[4]; float3 a3[4]; float4 a4[4]; f32x4 v4[4]; for (int i = 0; i < 4; i++) { a2[i] = float2(m[i][0], m[i][1]); a3[i] = float3(m[i][0], m[i][1], m[i][2]); a4[i] = float4(m[i][0], m[i][1], m[i][2], m[i][3]); v4[i] = f32x4(m[i][0], m[i][1], m[i][2], m[i][3]); }
	float2x2 m2(a2[0], a2[1]); float3x3 m3(a3[0], a3[1], a3[2]); float4x3 m43(a3[0], a3[1], a3[2], a3[3]); float4x4 m4(a4[0], a4[1], a4[2], a4[3]); f32x4x4 mv(v4[0], v4[1], v4[2], v4[3]);
	each(c, m2, A, "columns"); each(c, m3, A, "columns"); each(c, m43, A, "columns"); each(c, m4, A, "columns"); each(c, mv, A, "columns");
	// numbers are listed row by row
	each(c, float2x2(m[0][0], m[1][0], m[0][1], m[1][1]), A, "numbers"); each(c, float3x3(m[0][0], m[1][0], m[2][0], m[0][1], m[1][1], m[2][1], m[0][2], m[1][2], m[2][2]), A, "numbers");
	each(c, float4x3(m[0][0], m[1][0], m[2][0], m[3][0], m[0][1], m[1][1], m[2][1], m[3][1], m[0][2], m[1][2], m[2][2], m[3][2]), A, "numbers");
	each(c, float4x4(m[0][0], m[1][0], m[2][0], m[3][0], m[0][1], m[1][1], m[2][1], m[3][1], m[0][2], m[1][2], m[2][2], m[3][2], m[0][3], m[1][3], m[2][3], m[3][3]), A, "numbers");
	each(c, f32x4x4(m[0][0], m[1][0], m[2][0], m[3][0], m[0][1], m[1][1], m[2][1], m[3][1], m[0][2], m[1][2], m[2][2], m[3][2], m[0][3], m[1][3], m[2][3], m[3][3]), A, "numbers");
	each(c, f32x4x4(v4[0], v4[1], v4[2]), A, "three columns", 0, nullptr, 4, 3);
	// conversions to a smaller matrix keep the leading entries
	each(c, (float2x2)m3, A, "float3x3 to float2x2"); each(c, (float2x2)m43, A, "float4x3 to float2x2"); each(c, (float2x2)m4, A, "float4x4 to float2x2"); each(c, (float2x2)mv, A, "f32x4x4 to float2x2");
	each(c, (float3x3)m43, A, "float4x3 to float3x3"); each(c, (float3x3)m4, A, "float4x4 to float3x3"); each(c, (float3x3)mv, A, "f32x4x4 to float3x3");
	each(c, (float4x3)m4, A, "float4x4 to float4x3"); each(c, (float4x3)mv, A, "f32x4x4 to float4x3"); each(c, (float4x4)mv, A, "f32x4x4 to float4x4");
	// conversions to a larger one take the missing row and column
	F4 r3 = real4(s, "r3", -9, 9), c3 = real4(s, "c3", -9, 9);
	auto R = [&](int i, int j) { return j == 3 ? (double)r3[i] : a.m[i][j]; }; auto Z = [&](int i, int j) { return j == 3 ? 0.0 : a.m[i][j]; };
	auto C = [&](int i, int j) { return i == 3 ? (double)c3[j] : j == 3 ? (double)r3[i] : a.m[i][j]; }; auto C0 = [&](int i, int j) { return i == 3 || j == 3 ? 0.0 : a.m[i][j]; };
	each(c, float4x4(m43, vec(r3)), R, "float4x3 and row"); each(c, float4x4(m43), Z, "float4x3"); each(c, f32x4x4(m43, simd(r3)), R, "float4x3 and row"); each(c, f32x4x4(m43), Z, "float4x3");
	// the corner entry belongs to both the column and the row: not judged
	DM g = get(float4x4(m3, vec(c3), vec(r3))), h = get(f32x4x4(m3, simd(c3), simd(r3)));
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i < 3 || j < 3) { c.near(g.m[i][j], C(i, j), 0, "float4x4(float3x3, column, row)"); c.near(h.m[i][j], C(i, j), 0, "f32x4x4(float3x3, column, row)"); }
	each(c, float4x4(m3), C0, "float3x3"); each(c, f32x4x4(m3), C0, "float3x3");
	// from scalar matrices at any address a float may have
	struct alignas(16) Box { char b[128]; } box; size_t off = 4 * (size_t)s.draw(7); s.say("offset", (double)off); auto* pm = new (box.b + off) float4x4(m4); each(c, f32x4x4(*pm), A, "float4x4 at a 4-byte aligned address");
}
template<class M, class V> static void products(Src& s, Case& c)
{
	constexpr int N = MT<M>::NC; DM a = cut(entries(s, "a"), N, N), b = cut(entries(s, "b"), N, N); M x = make<M>(a), y = make<M>(b); c.trivialIf(!asym(a) || !asym(b));
	DM p = dmul(a, b), mag = dmul(dabs(a), dabs(b)); auto P = [&](int i, int j) { return p.m[i][j]; }; each(c, x * y, P, "m * m", 8e-7, &mag); M t = x; M& r = (t *= y); each(c, t, P, "m *= m", 8e-7, &mag); c.check(&r == &t, "*= returns another object");
	t = x; t *= t; DM sq = dmul(a, a), sqm = dmul(dabs(a), dabs(a)); each(c, t, [&](int i, int j) { return sq.m[i][j]; }, "m *= m itself", 8e-7, &sqm);
	each(c, x * M::identity, [&](int i, int j) { return a.m[i][j]; }, "m * identity"); each(c, M::identity * x, [&](int i, int j) { return a.m[i][j]; }, "identity * m");
	D4 v = pick4(b, 0), w = dmulv(a, v), wm = dmulv(dabs(a), pick4(dabs(b), 0)); float f[4]; for (int i = 0; i < 4; i++) f[i] = (float)v[i]; V q; memcpy((void*)&q, f, sizeof(float) * N); eachV(c, x * q, w, wm, fmt("%s * vector", MT<M>::name).c_str(), N);
	if constexpr (!std::is_same<M, f32x4x4>::value)
	{
		D4 l = dmulv(dT(a), v), lm = dmulv(dT(dabs(a)), pick4(dabs(b), 0)); eachV(c, q * x, l, lm, fmt("vector * %s", MT<M>::name).c_str(), N);
		each(c, transpose(x), [&](int i, int j) { return a.m[j][i]; }, "transpose"); eachV(c, transpose(x) * q, l, lm, "transpose(m) * vector", N);
	}
}
LAW(matrix_products, 5, "both operands are asymmetric")
{
	switch (s.draw(3)) { case 0: products<float2x2, float2>(s, c); break; case 1: products<float3x3, float3>(s, c); break; case 2: products<float4x4, float4>(s, c); break; default: products<f32x4x4, f32x4>(s, c); }
}
LAW(rectangular_and_3x3, 3, "the matrix is asymmetric")
{
	DM a = entries(s, "a"), b = entries(s, "b"); c.trivialIf(!asym(a) || !asym(b)); f32x4x4 x = make<f32x4x4>(a), y = make<f32x4x4>(b);
	D4 v = pick4(b, 1); f32x4 q((float)v[0], (float)v[1], (float)v[2], (float)v[3]); DM k = cut(a, 4, 3); eachV(c, make<float4x3>(k) * (float4)q, dmulv(k, v), dmulv(dabs(k), pick4(dabs(b), 1)), "float4x3 * float4", 3);
	// only the 3x3 block takes part; the fourth lanes hold anything
	DM u = cut(a, 3, 3), w = cut(b, 3, 3), p = dmul(u, w), mag = dmul(dabs(u), dabs(w)); each(c, multiply3x3(x, y), [&](int i, int j) { return p.m[i][j]; }, "multiply3x3", 8e-7, &mag, 3, 3);
	eachV(c, multiply3x3(x, q), dmulv(u, v), dmulv(dabs(u), pick4(dabs(b), 1)), "multiply3x3(m, v)", 3);
	each(c, transpose4x4(x), [&](int i, int j) { return a.m[j][i]; }, "transpose4x4"); each(c, transpose3x3(x), [&](int i, int j) { return a.m[j][i]; }, "transpose3x3", 0, nullptr, 3, 3);
	f32x4x4 t3 = transpose3x3(x); for (int j = 0; j < 4; j++) c.near(get(t3).m[3][j], a.m[3][j], 0, "transpose3x3 must keep the fourth column");
}
LAW(algebra, 3, "the entries are asymmetric")
{
	// small integer entries: every intermediate result is exact, so the laws hold exactly
	DM a, b, d; for (DM* m : { &a, &b, &d }) for (auto& k : m->m) for (auto& v : k) v = (double)s.irange(-9, 9); c.trivialIf(!asym(a) || !asym(b));
	auto same = [](auto x, auto y) { DM g = get(x), h = get(y); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (g.m[i][j] != h.m[i][j]) return false; return true; }; // zeros of either sign are equal
	auto run = [&](auto x, auto y, auto z, auto tr) { c.check(same((x * y) * z, x * (y * z)), "multiplication is not associative"); c.check(same(tr(x * y), tr(y) * tr(x)), "transpose of a product"); c.check(same(tr(tr(x)), x), "transpose twice"); };
	run(make<float2x2>(a), make<float2x2>(b), make<float2x2>(d), [](auto m) { return transpose(m); }); run(make<float3x3>(a), make<float3x3>(b), make<float3x3>(d), [](auto m) { return transpose(m); });
	run(make<float4x4>(a), make<float4x4>(b), make<float4x4>(d), [](auto m) { return transpose(m); }); run(make<f32x4x4>(a), make<f32x4x4>(b), make<f32x4x4>(d), [](auto m) { return transpose4x4(m); });
	f32x4x4 x = make<f32x4x4>(a), y = make<f32x4x4>(b); c.check(same((float4x4)(x * y), (float4x4)x * (float4x4)y), "f32x4x4 and float4x4 products differ");
	c.check(isBinaryLess(x, y) + isBinaryLess(y, x) == (x == y ? 0 : 1) && !isBinaryLess(x, x), "isBinaryLess(f32x4x4) is not a strict order");
}
LAW(order, 1, "the matrices differ in one entry or in all")
{
	DM a = entries(s, "a"), b = entries(s, "b"), d = entries(s, "d"); if (s.draw(1)) { b = a; int i = (int)s.draw(3), j = (int)s.draw(3); b.m[i][j] = s.draw(1) ? (double)-(float)b.m[i][j] : (double)(float)d.m[i][j]; } f32x4x4 x = make<f32x4x4>(a), y = make<f32x4x4>(b), z = make<f32x4x4>(d); auto less = [](const f32x4x4& p, const f32x4x4& q) { return memcmp(&p, &q, sizeof p) < 0; }; c.trivialIf(!less(x, y) && !less(y, x));
	c.check(isBinaryLess(x, y) == less(x, y) && isBinaryLess(y, x) == less(y, x), "isBinaryLess of two matrices is %d", (int)isBinaryLess(x, y)); c.check(!isBinaryLess(x, x), "a matrix is less than itself"); c.check(!(isBinaryLess(x, y) && isBinaryLess(y, z)) || isBinaryLess(x, z), "isBinaryLess is not transitive");
}
LAW(constants, 0.001, "always")
{
	auto all = [&](const f32x4x4& m, double v, const char* n) { DM g = get(m); for (auto& k : g.m) for (double e : k) c.check(e == v || (e != e && v != v), "f32x4x4::%s is %g", n, e); };
	all(f32x4x4::min, FLT_MIN, "min"); all(f32x4x4::minusMin, -FLT_MIN, "minusMin"); all(f32x4x4::max, FLT_MAX, "max"); all(f32x4x4::minusMax, -FLT_MAX, "minusMax"); all(f32x4x4::epsilon, FLT_EPSILON, "epsilon"); all(f32x4x4::inf, INFINITY, "inf"); all(f32x4x4::minusInf, -INFINITY, "minusInf"); all(f32x4x4::nan, NAN, "nan");
}
PBT_MAIN()
